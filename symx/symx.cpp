// symx: path-wise symbolic executor for LLVM IR (bit-precise, Z3 back end).
// It runs a harness compiled together with the code under test; symbolic
// inputs are introduced with symx_make(), obligations with symx_assert().
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <cstring>
#include <time.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- memory
enum { PS = 512 };
struct Page { int rc = 0; uint8_t c[PS]; E *s = nullptr; ~Page() { delete[] s; } };
struct ObjRec { int rc = 0; uint32_t size = 0; uint32_t ver = 0; bool freed = false; uint8_t kind = 0; // 0 global 1 heap 2 stack 3 func
  const char *name = ""; std::vector<Page *> pg; };
static uint32_t verCounter = 1;
static Page *zeroPage;
static inline void decPage(Page *p) { if (p && --p->rc == 0) delete p; }
static void freeObj(ObjRec *o) { for (auto p : o->pg) decPage(p); delete o; }
struct ObjRef { ObjRec *o = nullptr;
  ObjRef() {} ObjRef(ObjRec *x) : o(x) { if (o) o->rc++; }
  ObjRef(const ObjRef &r) : o(r.o) { if (o) o->rc++; }
  ObjRef(ObjRef &&r) : o(r.o) { r.o = nullptr; }
  ObjRef &operator=(ObjRef r) { std::swap(o, r.o); return *this; }
  ~ObjRef() { if (o && --o->rc == 0) freeObj(o); } };

struct Val { uint64_t c = 0; E e = nullptr; };
static inline Val cv(uint64_t c) { Val v; v.c = c; return v; }
static inline Val ev(E e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- code
enum IOp : uint8_t { I_BIN, I_ICMP, I_SEL, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_BR, I_CBR, I_SWITCH, I_PHI, I_CALL, I_RET, I_UNREACH, I_UNSUP, I_INTRIN };
enum Builtin : uint16_t { B_NONE, B_MALLOC, B_REALLOC, B_CALLOC, B_FREE, B_MAKE, B_ASSUME, B_ASSERT, B_CONC, B_OBSERVE, B_REACH, B_END, B_NOOP, B_MEMCPY, B_MEMSET,
  B_FSH, B_MINMAX, B_ABS, B_CTPOP, B_BSWAP, B_CTLZ, B_CTTZ, B_ASSUMEI, B_EXIT, B_UNKNOWN, B_USUBSAT, B_UADDSAT, B_ISSYM, B_FAIL, B_MERGEPT, B_LIVEHEAP, B_READABLE };
struct Func;
struct Inst { int32_t join = -1; mutable int32_t mok = 0, mfail = 0; IOp op; uint8_t sub = 0; uint8_t w = 0; uint8_t w2 = 0; int32_t dst = -1; int32_t a = 0, b = 0, c = 0;
  std::vector<int32_t> ops; std::vector<uint64_t> cs; std::vector<int32_t> tg; Func *fn = nullptr; uint16_t bi = 0; const Instruction *src = nullptr; };
struct Func { Function *f; bool built = false; std::vector<Inst> code; std::vector<int> blockStart; std::vector<uint8_t> slotW; int nslots = 0; uint64_t count = 0; uint32_t objid = 0;
  uint16_t bi = 0; std::string name; };
struct Frame { Func *f; int pc; int prevBlk; std::vector<Val> r; std::vector<uint32_t> allocas; };

struct State {
  std::vector<Frame> st;
  std::vector<ObjRef> objs;              // id-1 -> object
  std::vector<E> cons;
  std::unordered_map<uint32_t, uint64_t> known;
  std::vector<uint8_t> model;
  std::vector<Val> obs; std::vector<uint8_t> obsw;
  struct SymObj { std::string name; uint32_t first, n; };
  std::vector<SymObj> symobjs;
  uint32_t nsyms = 0;
  // per symbol: values its single-symbol constraints allow; whether other constraints mention it
  struct Dom { uint64_t b[4]; bool shared; };
  std::map<int32_t, Dom> dom; std::map<int32_t, uint8_t> pinned;
  uint64_t steps = 0; uint32_t forks = 0;
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<Val> consts;
static std::unordered_map<const Constant *, int32_t> constIdx;
static std::unordered_map<const Function *, Func *> funcs;
static std::unordered_map<uint32_t, Func *> funcByObj;
static std::unordered_map<const GlobalVariable *, uint32_t> gvObj;
static std::unordered_map<const GlobalVariable *, uint32_t> gvOff;   // offset within a named section laid out as one object
static std::set<std::string> noops;

// ---------------------------------------------------------------- stats
static uint64_t nPaths, nEarly, nInst, nForks, nQueries, nSat, nUnsat, nUnknown, nCacheHit, nTrivAssert, nAsserts, nAssertQ, nErrPaths, nKilled;
static double tSolver, tStart, timeLimit = 600, maxQuery = 0;
static unsigned queryTimeout = 20000; static uint64_t maxPaths = 1000000, maxSteps = 50000000; static bool hangIsError = false;
static bool incomplete; static std::string incompleteWhy;
static std::map<std::string, uint64_t> reached, assertLabels;
static std::map<std::string, uint64_t> funcCount;
struct Failure { std::string kind, label, where; std::vector<std::pair<std::string, std::string>> inputs; };
static std::vector<Failure> failures; static std::map<std::string, int> failSeen;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> obs; };
static std::vector<Sample> samples; static unsigned maxSamples = 5; static uint64_t rngs = 88172645463325252ull;
static int maxFailPerLabel = 1; static unsigned unresolvedAsserts;
static bool stopOnFail = false, stopNow = false, memErrors = true;
static uint64_t rng() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

// ---------------------------------------------------------------- solver
static Z3_context zc;
static Z3_solver zs;
static void z3err(Z3_context, Z3_error_code c) { fprintf(stderr, "z3 error %d\n", c); }
struct CacheEnt { int res; std::vector<std::pair<uint32_t, uint8_t>> asg; };
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

static bool noPin, useDom = true; static uint64_t nDom;
static State::Dom &domOf(State &st, int32_t s) { auto it = st.dom.find(s); if (it != st.dom.end()) return it->second; State::Dom &d = st.dom[s]; d.b[0] = d.b[1] = d.b[2] = d.b[3] = ~0ull; d.shared = false; return d; }
// returns 1 sat, 0 unsat, -1 unknown. On sat, model updated (copy of st.model overwritten on slice)
static E domCons(State::Dom &d, int32_t s) {   // the domain as a constraint on the symbol
  E x = mkSym(s), r = mkConst(0, 1);
  for (int i = 0; i < 256;) {
    if (!(d.b[i >> 6] >> (i & 63) & 1)) { i++; continue; }
    int j = i; while (j < 256 && (d.b[j >> 6] >> (j & 63) & 1)) j++;
    E t = j == i + 1 ? mkEq(x, mkConst(i, 8)) : mkBin(AND, mkNot(mkUlt(x, mkConst(i, 8))), mkNot(mkUlt(mkConst(j - 1, 8), x)));
    r = mkBin(OR, r, t); i = j;
  }
  return r;
}
static int checkSat(State &st, E q, std::vector<uint8_t> *outModel, bool oblig = false) {
  if (isC(q)) { if (q->c && outModel) *outModel = st.model; return q->c ? 1 : 0; }
  auto kn = st.known.find(q->id);
  if (kn != st.known.end()) { if (kn->second && outModel) *outModel = st.model; return kn->second ? 1 : 0; }
  E only = nullptr;
  if (useDom && q->s1 >= 0 && oblig && !domOf(st, q->s1).shared) only = domCons(domOf(st, q->s1), q->s1);
  else if (useDom && q->s1 >= 0) {            // one byte only: decide over its remaining values
    State::Dom &d = domOf(st, q->s1); int hit = -1; std::vector<uint8_t> m(q->s1 + 1);
    for (int i = 0; i < 256 && hit < 0; i++) if (d.b[i >> 6] >> (i & 63) & 1) { m[q->s1] = i; evalNewStamp(); if (evalExpr(q, m)) hit = i; }
    nDom++;
    if (hit < 0) return 0;
    if (!d.shared) { if (outModel) { std::vector<uint8_t> t = st.model; t[q->s1] = hit; *outModel = std::move(t); } return 1; }
  }
  // slice
  std::vector<bool> need(st.nsyms, false);
  for (auto s : symsOf(q)) need[s] = true;
  std::vector<E> sl; std::vector<char> taken(st.cons.size(), 0);
  if (only) { if (!isC(only)) sl.push_back(only); }
  else for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < st.cons.size(); i++) if (!taken[i]) {
      const auto &sy = symsOf(st.cons[i]); bool hit = false;
      for (auto s : sy) if (need[s]) { hit = true; break; }
      if (hit) { taken[i] = 1; sl.push_back(st.cons[i]); ch = true; for (auto s : sy) need[s] = true; }
    }
  }
  std::vector<uint32_t> key; for (auto e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.push_back(q->id);
  auto it = qcache.find(key);
  CacheEnt ce;
  if (it != qcache.end()) { nCacheHit++; ce = it->second; }
  else {
    nQueries++;
    double t0 = now();
    Z3_solver_push(zc, zs);
    for (auto e : sl) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, toZ3(zc, e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))));
    Z3_solver_assert(zc, zs, Z3_mk_eq(zc, toZ3(zc, q), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))));
    Z3_lbool r = Z3_solver_check(zc, zs);
    ce.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (ce.res == 1) {
      Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
      for (uint32_t i = 0; i < st.nsyms; i++) if (need[i]) {
        Z3_ast v; uint64_t x = 0;
        if (Z3_model_eval(zc, m, toZ3(zc, mkSym(i)), true, &v)) { Z3_inc_ref(zc, v); Z3_get_numeral_uint64(zc, v, &x); Z3_dec_ref(zc, v); }
        ce.asg.push_back({i, (uint8_t)x});
      }
      Z3_model_dec_ref(zc, m); nSat++;
    } else if (ce.res == 0) nUnsat++; else nUnknown++;
    Z3_solver_pop(zc, zs, 1);
    double dt = now() - t0; tSolver += dt; if (dt > maxQuery) maxQuery = dt;
    if (qcache.size() < 400000) qcache[key] = ce;
  }
  if (ce.res == 1 && outModel) {
    std::vector<uint8_t> m2 = st.model;
    for (auto &p : ce.asg) m2[p.first] = p.second;
    // sanity: the model satisfies the query
    evalNewStamp();
    if (!evalExpr(q, m2)) { fprintf(stderr, "symx: internal: solver model does not satisfy query %s\n", exprStr(q).c_str()); exit(3); }
    *outModel = std::move(m2);
  }
  return ce.res;
}
static uint64_t evalIn(State &st, E e) { evalNewStamp(); return evalExpr(e, st.model); }
static void addCons(State &st, E e) {
  if (isC(e)) return;
  if (e->op == AND && e->w == 1) { addCons(st, e->k[0]); addCons(st, e->k[1]); st.known[e->id] = 1; return; }
  if (st.known.count(e->id)) return;
  st.cons.push_back(e);
  if (useDom && e->s1 >= 0) {
    State::Dom &d = domOf(st, e->s1); int n = 0, last = 0; std::vector<uint8_t> m(e->s1 + 1);
    for (int i = 0; i < 256; i++) if (d.b[i >> 6] >> (i & 63) & 1) { m[e->s1] = i; evalNewStamp(); if (evalExpr(e, m)) { n++; last = i; } else d.b[i >> 6] &= ~(1ull << (i & 63)); }
    if (n == 1 && !noPin) st.pinned[e->s1] = last;
  } else if (useDom) for (auto y : symsOf(e)) domOf(st, y).shared = true;
  st.known[e->id] = 1; st.known[mkNot(e)->id] = 0;
  if (e->op == EQ && isC(e->k[1])) st.known[e->k[0]->id] = e->k[1]->c;
  if (e->op == XOR && isC(e->k[1])) { E x = e->k[0]; st.known[x->id] = 0; if (x->op == OR) { addCons(st, mkNot(x->k[0])); addCons(st, mkNot(x->k[1])); } }
}
static inline Val simp(State &st, Val v) {
  if (v.e && !st.known.empty()) { auto it = st.known.find(v.e->id); if (it != st.known.end()) return cv(it->second); }
  return v;
}

// ---------------------------------------------------------------- worklist
static std::vector<std::unique_ptr<State>> work;

static std::string whereOf(const Instruction *I) {
  std::string s; if (!I) return "?";
  if (auto d = I->getDebugLoc()) { s = d->getFilename().str() + ":" + std::to_string(d->getLine()); }
  s += " (" + I->getFunction()->getName().str() + ")"; return s;
}
static std::vector<std::pair<std::string, std::string>> inputsOf(State &st, const std::vector<uint8_t> &m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto &o : st.symobjs) { std::string h; char b[3]; for (uint32_t i = 0; i < o.n; i++) { snprintf(b, 3, "%02x", m[o.first + i]); h += b; } r.push_back({o.name, h}); }
  return r;
}
extern void specCheck();
static void report(State &st, const std::vector<uint8_t> &m, const std::string &kind, const std::string &label, const Instruction *I) {
  specCheck();
  std::string where = whereOf(I);
  std::string k = kind + "|" + label + (kind == "assert" ? "" : "|" + where);
  if (failSeen[k]++ < maxFailPerLabel) failures.push_back({kind, label, where, inputsOf(st, m)});
  if (stopOnFail) stopNow = true;
}
static std::unique_ptr<State> clone(State &s) { nForks++; auto n = std::make_unique<State>(s); return n; }

// ---------------------------------------------------------------- objects
static uint32_t newObj(State &st, uint32_t size, uint8_t kind, const char *name, int fill) {
  auto *o = new ObjRec; o->size = size; o->kind = kind; o->name = name; o->ver = verCounter++;
  unsigned np = (size + PS - 1) / PS; o->pg.resize(np);
  for (unsigned i = 0; i < np; i++) {
    if (fill == 0) { zeroPage->rc++; o->pg[i] = zeroPage; }
    else { auto *p = new Page; p->rc = 1; memset(p->c, fill, PS); o->pg[i] = p; }
  }
  st.objs.push_back(ObjRef(o));
  return st.objs.size();
}
static Page *wpage(State &st, uint32_t id, uint32_t pn) {
  ObjRef &r = st.objs[id - 1];
  if (r.o->rc > 1) { auto *n = new ObjRec(*r.o); n->rc = 0; for (auto p : n->pg) p->rc++; r = ObjRef(n); }
  r.o->ver = verCounter++;
  Page *&p = r.o->pg[pn];
  if (p->rc > 1) { auto *n = new Page; n->rc = 1; memcpy(n->c, p->c, PS); if (p->s) { n->s = new E[PS]; memcpy(n->s, p->s, sizeof(E) * PS); } p->rc--; p = n; }
  return p;
}
static inline void wbyteC(Page *p, unsigned o, uint8_t v) { p->c[o] = v; if (p->s) p->s[o] = nullptr; }
static inline void wbyteE(Page *p, unsigned o, E e) {
  if (isC(e)) { wbyteC(p, o, e->c); return; }
  if (!p->s) { p->s = new E[PS]; memset(p->s, 0, sizeof(E) * PS); }
  p->s[o] = e;
}
static void writeAt(State &st, uint32_t id, uint32_t off, unsigned n, const Val &v, unsigned w) {
  for (unsigned i = 0; i < n;) {
    uint32_t pn = (off + i) / PS; Page *p = wpage(st, id, pn);
    for (; i < n && (off + i) / PS == pn; i++) {
      unsigned o = (off + i) % PS;
      if (!v.e) wbyteC(p, o, (uint8_t)(v.c >> (8 * i)));
      else { unsigned lo = 8 * i, ww = lo + 8 <= w ? 8 : w - lo; wbyteE(p, o, mkZExt(mkExtract(v.e, lo, ww), 8)); }
    }
  }
}
static Val readAt(const ObjRec *o, uint32_t off, unsigned n, unsigned w) {
  bool sym = false; uint64_t c = 0;
  for (unsigned i = 0; i < n; i++) { Page *p = o->pg[(off + i) / PS]; unsigned q = (off + i) % PS; if (p->s && p->s[q]) { sym = true; break; } c |= (uint64_t)p->c[q] << (8 * i); }
  if (!sym) return cv(c & MASK(w));
  E e = nullptr;
  for (unsigned i = 0; i < n; i++) { Page *p = o->pg[(off + i) / PS]; unsigned q = (off + i) % PS;
    E b = p->s && p->s[q] ? p->s[q] : mkConst(p->c[q], 8); e = e ? mkConcat(b, e) : b; }
  if (w < 8 * n) e = mkExtract(e, 0, w);
  return ev(e);
}

// ---------------------------------------------------------------- build code
static Func *getFunc(Function *f);
static Val constVal(const Constant *c);
static Val constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { return cv(ci->getValue().trunc(64).getZExtValue()); } return cv(ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return cv(0);
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto o = gvOff.find(gv); return cv(((uint64_t)gvObj.at(gv) << 32) + (o == gvOff.end() ? 0 : o->second)); }
  if (auto *f = dyn_cast<Function>(c)) return cv((uint64_t)getFunc(const_cast<Function *>(f))->objid << 32);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *fp = dyn_cast<ConstantFP>(c)) return cv(fp->getValueAPF().bitcastToAPInt().getZExtValue());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return cv(constVal(ce->getOperand(0)).c + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case Instruction::Trunc: return cv(constVal(ce->getOperand(0)).c & MASK(ce->getType()->getIntegerBitWidth()));
    case Instruction::ZExt: return constVal(ce->getOperand(0));
    case Instruction::Add: return cv(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
    case Instruction::Sub: return cv(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
    case Instruction::ICmp: { auto p = ce->getPredicate(); uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
      switch (p) { case CmpInst::ICMP_EQ: return cv(a == b); case CmpInst::ICMP_NE: return cv(a != b); case CmpInst::ICMP_ULT: return cv(a < b); case CmpInst::ICMP_UGT: return cv(a > b); default: break; } break; }
    default: break;
    }
  }
  errs() << "symx: unsupported constant " << *c << "\n"; exit(3);
}
static unsigned tyW(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }

static void initConst(State &st, uint32_t id, uint32_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = DL->getTypeAllocSize(cds->getElementType());
    StringRef raw = cds->getRawDataValues();
    for (size_t i = 0; i < raw.size();) { uint32_t pn = (off + i) / PS; Page *p = wpage(st, id, pn); for (; i < raw.size() && (off + i) / PS == pn; i++) p->c[(off + i) % PS] = raw[i]; }
    (void)es; return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(st, id, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(st, id, off + (uint64_t)sl->getElementOffset(i), cs->getOperand(i)); return; }
  unsigned w = tyW(t); writeAt(st, id, off, (w + 7) / 8, constVal(c), w < 8 ? 8 : w);
}

static const char *findBuiltinTable[][2] = {};
static uint16_t builtinOf(const std::string &n) {
  static std::map<std::string, uint16_t> t = {{"malloc", B_MALLOC}, {"realloc", B_REALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"symx_make", B_MAKE}, {"symx_assume", B_ASSUME},
    {"symx_assert", B_ASSERT}, {"symx_concretize", B_CONC}, {"symx_observe", B_OBSERVE}, {"symx_reach", B_REACH}, {"symx_end", B_END}, {"memcpy", B_MEMCPY},
    {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"exit", B_EXIT}, {"abort", B_EXIT}, {"symx_is_symbolic", B_ISSYM}, {"symx_live_heap", B_LIVEHEAP}, {"symx_readable", B_READABLE}};
  auto it = t.find(n); return it == t.end() ? B_NONE : it->second;
}
static Func *getFunc(Function *f) {
  auto it = funcs.find(f); if (it != funcs.end()) return it->second;
  auto *F = new Func; F->f = f; F->name = f->getName().str(); funcs[f] = F;
  F->bi = builtinOf(F->name);
  if (!F->bi && noops.count(F->name)) F->bi = B_NOOP;
  else if (!F->bi && f->isDeclaration()) F->bi = B_UNKNOWN;
  else if (F->bi && !f->isDeclaration() && F->name.rfind("symx_", 0) != 0) F->bi = B_NONE;   // program defines its own
  return F;
}
static void buildFunc(Func *F) {
  F->built = true;
  std::unordered_map<const Value *, int32_t> slot; std::unordered_map<const BasicBlock *, int> bidx;
  int n = 0; for (auto &a : F->f->args()) slot[&a] = n++;
  int nb = 0; for (auto &b : *F->f) { bidx[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  F->nslots = n; F->blockStart.resize(nb);
  F->slotW.assign(n, 0); for (auto &p : slot) { unsigned w = tyW(p.first->getType()); F->slotW[p.second] = w <= 64 ? w : 0; }
  auto opd = [&](const Value *v) -> int32_t {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = constIdx.find(c); if (it != constIdx.end()) return it->second;
      Val cvv = constVal(c); consts.push_back(cvv); int32_t ix = -(int32_t)consts.size(); constIdx[c] = ix; return ix; }
    auto it = slot.find(v); if (it == slot.end()) return INT32_MIN; return it->second; };
  PostDominatorTree PDT(*F->f);
  int bi = 0;
  for (auto &b : *F->f) {
    int join = -1; if (auto *nd = PDT.getNode(&b)) if (auto *id = nd->getIDom()) if (id->getBlock()) join = bidx[id->getBlock()];
    F->blockStart[bi] = F->code.size(); 
    for (auto &i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Inst x; x.src = &i; x.op = I_UNSUP; if (!i.getType()->isVoidTy()) x.dst = slot[&i];
      x.w = tyW(i.getType());
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        static std::map<unsigned, int> m = {{Instruction::Add, ADD}, {Instruction::Sub, 100}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM},
          {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
        auto it = m.find(bo->getOpcode());
        if (it != m.end() && x.w && x.w <= 64) { x.op = I_BIN; x.sub = it->second; x.a = opd(i.getOperand(0)); x.b = opd(i.getOperand(1)); }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) { x.op = I_ICMP; x.sub = ic->getPredicate(); x.w2 = tyW(ic->getOperand(0)->getType()); x.a = opd(ic->getOperand(0)); x.b = opd(ic->getOperand(1));
      } else if (auto *s = dyn_cast<SelectInst>(&i)) { x.op = I_SEL; x.a = opd(s->getCondition()); x.b = opd(s->getTrueValue()); x.c = opd(s->getFalseValue());
      } else if (isa<ZExtInst>(i)) { x.op = I_ZEXT; x.a = opd(i.getOperand(0)); x.w2 = tyW(i.getOperand(0)->getType());
      } else if (isa<SExtInst>(i)) { x.op = I_SEXT; x.a = opd(i.getOperand(0)); x.w2 = tyW(i.getOperand(0)->getType());
      } else if (isa<TruncInst>(i)) { x.op = I_TRUNC; x.a = opd(i.getOperand(0)); x.w2 = tyW(i.getOperand(0)->getType()); if (x.w2 > 64) x.op = I_UNSUP;
      } else if (isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i) || isa<BitCastInst>(i) || isa<FreezeInst>(i)) { x.op = I_COPY; x.a = opd(i.getOperand(0)); x.w2 = tyW(i.getOperand(0)->getType());
        if (x.w != x.w2) x.op = x.w < x.w2 ? I_TRUNC : I_ZEXT;
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) { x.op = I_ALLOCA; x.cs.push_back(DL->getTypeAllocSize(al->getAllocatedType())); x.a = opd(al->getArraySize());
      } else if (auto *l = dyn_cast<LoadInst>(&i)) { x.op = I_LOAD; x.a = opd(l->getPointerOperand()); x.c = DL->getTypeStoreSize(l->getType()); if (!x.w || x.w > 64) x.op = I_UNSUP;
      } else if (auto *s = dyn_cast<StoreInst>(&i)) { x.op = I_STORE; x.b = opd(s->getValueOperand()); x.a = opd(s->getPointerOperand()); x.w = tyW(s->getValueOperand()->getType()); x.c = DL->getTypeStoreSize(s->getValueOperand()->getType()); if (!x.w || x.w > 64) x.op = I_UNSUP;
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        x.op = I_GEP; x.a = opd(g->getPointerOperand()); int64_t off = 0;
        for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *sty = gi.getStructTypeOrNull()) { off += (int64_t)(uint64_t)DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * (int64_t)es; continue; }
          x.ops.push_back(opd(ix)); x.cs.push_back(es); x.tg.push_back(tyW(ix->getType()));
        }
        x.cs.push_back((uint64_t)off);
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isUnconditional()) { x.op = I_BR; x.tg.push_back(bidx[br->getSuccessor(0)]); }
        else { x.op = I_CBR; x.a = opd(br->getCondition()); x.tg.push_back(bidx[br->getSuccessor(0)]); x.tg.push_back(bidx[br->getSuccessor(1)]); }
        x.b = bi;
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        x.op = I_SWITCH; x.a = opd(sw->getCondition()); x.w = tyW(sw->getCondition()->getType()); x.tg.push_back(bidx[sw->getDefaultDest()]);
        for (auto &cs : sw->cases()) { x.cs.push_back(cs.getCaseValue()->getZExtValue()); x.tg.push_back(bidx[cs.getCaseSuccessor()]); }
        x.b = bi;
      } else if (auto *ph = dyn_cast<PHINode>(&i)) {
        x.op = I_PHI; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { x.tg.push_back(bidx[ph->getIncomingBlock(k)]); x.ops.push_back(opd(ph->getIncomingValue(k))); }
      } else if (auto *r = dyn_cast<ReturnInst>(&i)) { x.op = I_RET; x.c = r->getReturnValue() != nullptr; if (x.c) x.a = opd(r->getReturnValue());
      } else if (isa<UnreachableInst>(i)) { x.op = I_UNREACH;
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        x.op = I_CALL; for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { x.ops.push_back(INT32_MIN); continue; } x.ops.push_back(opd(a.get())); x.tg.push_back(tyW(a->getType())); }
        Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf) x.a = opd(cb->getCalledOperand());
        else if (cf->isIntrinsic()) {
          x.op = I_INTRIN;
          switch (cf->getIntrinsicID()) {
          case Intrinsic::memcpy: case Intrinsic::memmove: x.bi = B_MEMCPY; break;
          case Intrinsic::memset: x.bi = B_MEMSET; break;
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::expect: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl:
            x.bi = B_NOOP; if (cf->getIntrinsicID() == Intrinsic::expect) { x.op = I_COPY; x.a = x.ops[0]; } break;
          case Intrinsic::assume: case Intrinsic::vastart: case Intrinsic::vaend: x.bi = B_NOOP; break;   // argument lists only reach printing, which is not modelled
          case Intrinsic::fshl: x.bi = B_FSH; x.sub = 0; break; case Intrinsic::fshr: x.bi = B_FSH; x.sub = 1; break;
          case Intrinsic::umin: x.bi = B_MINMAX; x.sub = 0; break; case Intrinsic::umax: x.bi = B_MINMAX; x.sub = 1; break;
          case Intrinsic::smin: x.bi = B_MINMAX; x.sub = 2; break; case Intrinsic::smax: x.bi = B_MINMAX; x.sub = 3; break;
          case Intrinsic::abs: x.bi = B_ABS; break; case Intrinsic::bswap: x.bi = B_BSWAP; break;
          case Intrinsic::usub_sat: x.bi = B_USUBSAT; break; case Intrinsic::uadd_sat: x.bi = B_UADDSAT; break;
          case Intrinsic::ctpop: x.bi = B_CTPOP; break;
          case Intrinsic::trap: case Intrinsic::ubsantrap: x.bi = B_EXIT; break;
          default: x.op = I_UNSUP;
          }
        } else x.fn = getFunc(cf);
      }
      x.join = join;
      F->code.push_back(std::move(x));
    }
    bi++;
  }
}

// ---------------------------------------------------------------- execution
struct KillPath { };
struct SpecFail { };
struct Spec { size_t depth; int join; uint64_t limit; };
static int specDepth = 0; void specCheck() { if (specDepth) throw SpecFail(); }
 static bool noMerge = false; static uint64_t nMerges, nMergeFail, specInst;
static std::map<const Instruction *, uint64_t> forkAt; static const Instruction *curI; static bool profForks; static std::map<std::string, uint64_t> forkSym;
static void noteFork(State &st, E c) { if (!profForks) return; forkAt[curI]++; std::string t; std::set<std::string> u; for (auto y : symsOf(c)) for (auto &o : st.symobjs) if (y >= o.first && y < o.first + o.n) u.insert(o.name + "@" + std::to_string(y)); for (auto &x : u) if (t.size() < 120) t += x + " "; forkSym[t]++; }
static unsigned maxSpecDepth = 12; static uint64_t specLimit = 4000;
static void killErr(State &st, const std::string &kind, const std::string &msg, const Instruction *I) { specCheck(); nErrPaths++; report(st, st.model, kind, msg, I); throw KillPath(); }

// Fork on condition: returns truth in current state, pushes the other side positioned by 'fix'.
template <class Fix> static bool forkOn(State &st, E cond, Fix fix) {
  if (isC(cond)) return cond->c;
  auto kn = st.known.find(cond->id); if (kn != st.known.end()) return kn->second;
  bool v = evalIn(st, cond); E other = v ? mkNot(cond) : cond;
  std::vector<uint8_t> m2; int r = checkSat(st, other, &m2);
  if (r == -1) { incomplete = true; incompleteWhy = "solver unknown on branch"; }
  if (r == 1) {
    specCheck();
    auto n = clone(st); n->model = std::move(m2); n->forks++; noteFork(st, cond); fix(*n, !v); addCons(*n, other); work.push_back(std::move(n));
    addCons(st, v ? cond : mkNot(cond)); st.forks++;
  } else if (r == 0) { st.known[cond->id] = v; st.known[mkNot(cond)->id] = !v; }
  else addCons(st, v ? cond : mkNot(cond));
  return v;
}
// Make operand slot concrete by forking over values; other side re-executes the instruction.
static uint64_t concretizeE(State &st, E e) {
  if (isC(e)) return e->c;
  auto kn = st.known.find(e->id); if (kn != st.known.end()) return kn->second;
  uint64_t v = evalIn(st, e);
  forkOn(st, mkEq(e, mkConst(v, e->w)), [](State &, bool) {});
  st.known[e->id] = v;
  return v;
}
struct Loc { uint32_t id; bool symoff; uint32_t off; E offE; };
static Loc resolve(State &st, Val p, unsigned n, const Inst &x, bool wr) {
  Loc L; p = simp(st, p);
  if (!p.e) { L.id = p.c >> 32; L.off = (uint32_t)p.c; L.symoff = false; }
  else {
    E hi = mkExtract(p.e, 32, 32);
    if (isC(hi)) L.id = hi->c;
    else L.id = (uint32_t)concretizeE(st, hi);
    E lo = mkExtract(p.e, 0, 32); Val lv = simp(st, ev(lo));
    if (!lv.e) { L.symoff = false; L.off = lv.c; } else { L.symoff = true; L.offE = lv.e; }
  }
  if (L.id == 0 || L.id > st.objs.size() || !st.objs[L.id - 1].o) killErr(st, "memory", L.id == 0 ? "null or wild pointer access" : "access to dead object", x.src);
  ObjRec *o = st.objs[L.id - 1].o;
  if (o->kind == 3) killErr(st, "memory", "data access to function", x.src);
  if (o->freed) killErr(st, "memory", "use after free", x.src);
  if (!L.symoff) { if ((uint64_t)L.off + n > o->size) killErr(st, "memory", std::string("out of bounds access to ") + o->name, x.src); }
  else {
    if (o->size < n) killErr(st, "memory", std::string("out of bounds access to ") + o->name, x.src);
    uint64_t mx = ~L.offE->k0 & MASK(32);
    if (mx > o->size - n) {
      E in = mkNot(mkUlt(mkConst(o->size - n, 32), L.offE));
      if (!isC(in) || !in->c) {
        bool v = evalIn(st, in); std::vector<uint8_t> m2;
        if (v) { int r = checkSat(st, mkNot(in), &m2); if (r == 1) { nErrPaths++; report(st, m2, "memory", std::string("out of bounds access to ") + o->name, x.src); } if (r == -1) { incomplete = true; incompleteWhy = "solver unknown on bounds"; } if (r != 0) addCons(st, in); }
        else { report(st, st.model, "memory", std::string("out of bounds access to ") + o->name, x.src); nErrPaths++; int r = checkSat(st, in, &m2); if (r != 1) throw KillPath(); st.model = m2; addCons(st, in); }
      }
    }
  }
  return L;
}
static std::map<std::tuple<uint32_t, uint32_t, uint32_t, int64_t, unsigned>, Val> tblCache;
static void stripOff(E off, E &x, int64_t &C) { x = off; C = 0; if (off->op == ADD && isC(off->k[1])) { x = off->k[0]; C = SX(off->k[1]->c, 32); } }
static Val shannon(const ObjRec *o, E x, uint64_t U, uint64_t cur, int64_t C, unsigned n, unsigned w, bool &any) {
  if (!U) { int64_t off = (int64_t)(int32_t)(uint32_t)(cur + C); if (off < 0 || off + n > o->size) { any = false; return cv(0); } any = true; return readAt(o, off, n, w); }
  int b = 63 - __builtin_clzll(U); uint64_t U2 = U & ~(1ull << b);
  bool a0, a1; Val v0 = shannon(o, x, U2, cur, C, n, w, a0), v1 = shannon(o, x, U2, cur | (1ull << b), C, n, w, a1);
  any = a0 || a1; if (!a0) return v1; if (!a1) return v0;
  if (!v0.e && !v1.e && v0.c == v1.c) return v0;
  return ev(mkIte(mkExtract(x, b, 1), toE(v1, w), toE(v0, w)));
}
// the value of e when its sub-expression y (on a chain of single non-constant
// operands) has the constant value v
static E substChain(E e, E y, E v) {
  if (e == y) return v;
  E k[3]; for (int i = 0; i < e->nk; i++) k[i] = isC(e->k[i]) ? e->k[i] : substChain(e->k[i], y, v);
  switch (e->op) {
  case CONCAT: return mkConcat(k[0], k[1]); case EXTRACT: return mkExtract(k[0], e->c, e->w); case SEXT: return mkSExt(k[0], e->w);
  case EQ: return mkEq(k[0], k[1]); case ULT: return mkUlt(k[0], k[1]); case SLT: return mkSlt(k[0], k[1]); case ITE: return mkIte(k[0], k[1], k[2]);
  default: return mkBin(e->op, k[0], k[1]); }
}
static E narrowCore(E e) { // deepest node of the chain that is at most 12 bits wide, or null
  E best = nullptr;
  for (;;) { if (e->w <= 12 && e->w > 1 && e->op != CONST) { return e; } E n = nullptr; int cnt = 0; for (int i = 0; i < e->nk; i++) if (!isC(e->k[i])) { n = e->k[i]; cnt++; } if (cnt != 1) return best; e = n; }
}
static Val shannonV(State &st, const ObjRec *o, E off, E y, unsigned bit, uint64_t cur, unsigned n, unsigned w, bool &any) {
  if (bit == 0) { if ((cur & y->k0) || (~cur & y->k1)) { any = false; return cv(0); } E v = substChain(off, y, mkConst(cur, y->w)); if (!isC(v)) throw KillPath(); int64_t k = SX(v->c, 32); if (k < 0 || k + n > o->size) { any = false; return cv(0); } any = true; return readAt(o, k, n, w); }
  bool a0, a1; Val v0 = shannonV(st, o, off, y, bit - 1, cur, n, w, a0), v1 = shannonV(st, o, off, y, bit - 1, cur | (1ull << (bit - 1)), n, w, a1);
  any = a0 || a1; if (!a0) return v1; if (!a1) return v0;
  if (!v0.e && !v1.e && v0.c == v1.c) return v0;
  return ev(mkIte(mkExtract(y, bit - 1, 1), toE(v1, w), toE(v0, w)));
}
// loads whose offset is a function of an if-then-else tree with constant leaves:
// the load is pushed into the leaves
static bool iteTree(E e, std::unordered_map<uint32_t, char> &seen, unsigned &budget) {
  if (isC(e)) return true; if (e->op != ITE) return false;
  if (seen.count(e->id)) return true; if (!budget--) return false; seen[e->id] = 1;
  return iteTree(e->k[1], seen, budget) && iteTree(e->k[2], seen, budget);
}
static bool iteLoad(const ObjRec *o, E off, E core, E e, unsigned n, unsigned w, std::unordered_map<uint32_t, std::pair<bool, Val>> &memo, Val &r) {
  auto it = memo.find(e->id); if (it != memo.end()) { r = it->second.second; return it->second.first; }
  bool ok;
  if (isC(e)) { E v = substChain(off, core, e); int64_t k = isC(v) ? SX(v->c, 32) : -1; ok = k >= 0 && k + n <= o->size; if (ok) r = readAt(o, k, n, w); }
  else { Val a, b; bool oa = iteLoad(o, off, core, e->k[1], n, w, memo, a), ob = iteLoad(o, off, core, e->k[2], n, w, memo, b);
    ok = oa || ob; if (!oa) r = b; else if (!ob) r = a; else if (!a.e && !b.e && a.c == b.c) r = a; else r = ev(mkIte(e->k[0], toE(a, w), toE(b, w))); }
  memo[e->id] = {ok, r}; return ok;
}
static E iteCore(E e) { for (;;) { if (e->op == ITE) return e; E n = nullptr; int cnt = 0; for (int i = 0; i < e->nk; i++) if (!isC(e->k[i])) { n = e->k[i]; cnt++; } if (cnt != 1) return nullptr; e = n; } }
static Val loadVal(State &st, Frame &f, const Inst &x, Val p) {
  unsigned n = x.c, w = x.w;
  Loc L = resolve(st, p, n, x, false);
  ObjRec *o = st.objs[L.id - 1].o;
  if (!L.symoff) return simp(st, readAt(o, L.off, n, w));
  if (E core = iteCore(L.offE)) {
    auto key = std::make_tuple(L.id, o->ver, L.offE->id, (int64_t)-0x7ffffffe, n * 256 + w); auto it = tblCache.find(key);
    if (it != tblCache.end()) return simp(st, it->second);
    std::unordered_map<uint32_t, char> seen; unsigned budget = 20000; 
    if (iteTree(core, seen, budget)) { std::unordered_map<uint32_t, std::pair<bool, Val>> memo; Val r; if (iteLoad(o, L.offE, core, core, n, w, memo, r)) { if (tblCache.size() < 200000) tblCache[key] = r; return simp(st, r); } }
  }
  E xx; int64_t C; stripOff(L.offE, xx, C);
  uint64_t U = ~(xx->k0 | xx->k1) & MASK(32);
  if (__builtin_popcountll(U) <= 13) {
    auto key = std::make_tuple(L.id, o->ver, xx->id, C, n * 256 + w); auto it = tblCache.find(key);
    if (it != tblCache.end()) return simp(st, it->second);
    bool any; Val r = shannon(o, xx, U, xx->k1, C, n, w, any);
    if (tblCache.size() < 200000) tblCache[key] = r;
    return simp(st, r);
  }
  if (E y = narrowCore(L.offE)) {
    auto key = std::make_tuple(L.id, o->ver, L.offE->id, (int64_t)-0x7fffffff, n * 256 + w); auto it = tblCache.find(key);
    if (it != tblCache.end()) return simp(st, it->second);
    bool any; Val r = shannonV(st, o, L.offE, y, y->w, 0, n, w, any);
    if (any) { if (tblCache.size() < 200000) tblCache[key] = r; return simp(st, r); }
  }
  { // bits of the offset that the path condition fixes
    uint64_t m = evalIn(st, xx), fixed = 0, fv = 0; std::vector<uint8_t> m2; int left = __builtin_popcountll(U);
    for (int b = 31; b >= 0 && left > 13; b--) if ((U >> b) & 1) {
      if (left - 13 > b + 1) break;
      E bit = mkEq(mkExtract(xx, b, 1), mkConst((m >> b) & 1, 1)); if (checkSat(st, mkNot(bit), &m2) == 0) { fixed |= 1ull << b; fv |= m & (1ull << b); left--; } }
    if (left <= 13) { bool any; Val r = shannon(o, xx, U & ~fixed, xx->k1 | fv, C, n, w, any); if (any) return simp(st, r); }
  }
  uint32_t off = concretizeE(st, L.offE);
  return simp(st, readAt(st.objs[L.id - 1].o, off, n, w));
}
static void storeVal(State &st, const Inst &x, Val p, Val v) {
  unsigned n = x.c, w = x.w;
  Loc L = resolve(st, p, n, x, true);
  if (!L.symoff) { writeAt(st, L.id, L.off, n, v, w); return; }
  E xx; int64_t C; stripOff(L.offE, xx, C);
  uint64_t U = ~(xx->k0 | xx->k1) & MASK(32); int pc = __builtin_popcountll(U);
  if (pc <= 6) {
    uint32_t size = st.objs[L.id - 1].o->size;
    std::vector<std::pair<uint32_t, Val>> wr;
    uint64_t s = 0;
    do {
      int64_t off = (int64_t)(int32_t)(uint32_t)((xx->k1 | s) + C);
      if (off >= 0 && off + n <= size) { E c = mkEq(xx, mkConst(xx->k1 | s, 32)); Val old = readAt(st.objs[L.id - 1].o, off, n, 8 * n); E nv = mkIte(c, mkZExt(toE(v, w), 8 * n), toE(old, 8 * n)); writeAt(st, L.id, off, n, ev(nv), 8 * n); }
      s = (s - U) & U;
    } while (s);
    return;
  }
  uint32_t off = concretizeE(st, L.offE);
  writeAt(st, L.id, off, n, v, w);
}

static void finishPath(State &st) {
  nPaths++;
  Sample s; s.inputs = inputsOf(st, st.model);
  bool take = samples.size() < maxSamples; size_t slot = samples.size();
  if (!take && maxSamples) { uint64_t k = rng() % nPaths; if (k < maxSamples) { take = true; slot = k; } }
  if (take) { evalNewStamp(); for (auto &v : st.obs) s.obs.push_back(v.e ? evalExpr(v.e, st.model) : v.c); if (slot == samples.size()) samples.push_back(s); else samples[slot] = s; }
}

static std::string readStr(State &st, uint64_t p) {
  std::string r; uint32_t id = p >> 32, off = (uint32_t)p; if (!id || id > st.objs.size() || !st.objs[id - 1].o) return "?";
  ObjRec *o = st.objs[id - 1].o; while (off < o->size) { char c = o->pg[off / PS]->c[off % PS]; if (!c) break; r += c; off++; } return r;
}

static void run(State &st, Spec *sp = nullptr);
static Val phiVal(const Frame &fr, const Inst &ph) {
  if (fr.prevBlk == -2) return fr.r[ph.dst]; // an inner merge already evaluated the phis of this join
  for (size_t k = 0; k < ph.tg.size(); k++) if (ph.tg[k] == fr.prevBlk) { int32_t o = ph.ops[k]; return o >= 0 ? fr.r[o] : consts[-o - 1]; }
  return Val();
}
// Execute both sides of a symbolic branch up to the join block and merge them
// into one state with if-then-else values.  Returns false when not possible.
template <class GA, class GB> static bool tryMerge(State &st, const Inst &x, E cond, int join, std::vector<uint8_t> &m2, GA goA, GB goB) {
  if (noMerge || join < 0 || (unsigned)specDepth >= maxSpecDepth) return false;
  if (specDepth && now() - tStart > timeLimit) throw SpecFail();
  if (x.mfail > 20 && x.mfail > 4 * x.mok) { if (rng() % 64) return false; }
  bool v = evalIn(st, cond);
  size_t base = st.objs.size(), depth = st.st.size();
  State A(st), B(st);
  (v ? B : A).model = m2;
  noPin = true; addCons(A, cond); addCons(B, mkNot(cond)); noPin = false;
  size_t ca = A.cons.size(), cb = B.cons.size();
  Spec sp{depth, join, specInst + specLimit};
  if (!specDepth) sp.limit = (specInst = 0) + specLimit;
  specDepth++;
  bool ok = true;
  try { bool ra = goA(A, &sp); if (!ra) run(A, &sp); bool rb = goB(B, &sp); if (!rb) run(B, &sp); } catch (SpecFail &) { ok = false; } catch (KillPath &) { ok = false; }
  specDepth--;
  if (ok && (A.cons.size() != ca || B.cons.size() != cb || A.nsyms != st.nsyms || B.nsyms != st.nsyms || A.obs.size() != st.obs.size() || B.obs.size() != st.obs.size())) ok = false;
  if (ok) { for (size_t i = base; i < A.objs.size(); i++) if (A.objs[i].o) ok = false; for (size_t i = base; i < B.objs.size(); i++) if (B.objs[i].o) ok = false; }
  if (!ok) { x.mfail++; nMergeFail++; return false; }
  // merge memory into st
  for (size_t i = 0; i < base; i++) {
    ObjRec *a = A.objs[i].o, *b = B.objs[i].o;
    if (a == b) { if (st.objs[i].o != a) st.objs[i] = A.objs[i]; continue; }
    if (!a || !b || a->freed != b->freed) { x.mfail++; nMergeFail++; return false; }
  }
  for (size_t i = 0; i < base; i++) {
    ObjRec *a = A.objs[i].o, *b = B.objs[i].o;
    if (a == b) continue;
    st.objs[i] = A.objs[i];
    for (size_t pn = 0; pn < a->pg.size(); pn++) {
      Page *pa = a->pg[pn], *pb = b->pg[pn]; if (pa == pb) continue;
      Page *w = nullptr;
      for (unsigned o = 0; o < PS; o++) {
        E ea = pa->s ? pa->s[o] : nullptr, eb = pb->s ? pb->s[o] : nullptr;
        if (ea == eb && (ea || pa->c[o] == pb->c[o])) continue;
        if (!ea) ea = mkConst(pa->c[o], 8); if (!eb) eb = mkConst(pb->c[o], 8);
        if (!w) { w = wpage(st, i + 1, pn); }
        wbyteE(w, o, mkIte(cond, ea, eb));
      }
    }
  }
  Frame &f = st.st.back(), &fa = A.st.back(), &fb = B.st.back();
  int pc = f.f->blockStart[join]; std::vector<Val> tmp; std::vector<int> dst;
  while (f.f->code[pc].op == I_PHI) { const Inst &ph = f.f->code[pc]; Val a = phiVal(fa, ph), b = phiVal(fb, ph);
    Val r; if (!a.e && !b.e && a.c == b.c) r = a; else r = ev(mkIte(cond, toE(a, ph.w), toE(b, ph.w)));
    tmp.push_back(r); dst.push_back(ph.dst); pc++; }
  // registers re-defined inside the region (loops around a dominating block)
  for (size_t k = 0; k < f.r.size(); k++) { const Val &a = fa.r[k], &b = fb.r[k];
    if (a.e == b.e && (a.e || a.c == b.c)) { f.r[k] = a; continue; }
    unsigned w = f.f->slotW[k]; if (!w || (a.e && a.e->w != w) || (b.e && b.e->w != w)) { f.r[k] = a; continue; }
    f.r[k] = ev(mkIte(cond, toE(a, w), toE(b, w))); }
  for (size_t k = 0; k < tmp.size(); k++) f.r[dst[k]] = tmp[k];
  f.prevBlk = fa.prevBlk; f.pc = pc;
  st.steps = std::max(A.steps, B.steps);
  x.mok++; nMerges++;
  return true;
}
// execute one state until it ends (or, in speculation, until the join block)
static void run(State &st, Spec *sp) {
  for (;;) {
    Frame *f = &st.st.back();
    const Inst &x = f->f->code[f->pc];
    auto V = [&](int32_t o) -> Val {
      if (o < 0) return consts[-o - 1];
      Val &v = f->r[o];
      if (v.e && v.e->s1 >= 0 && !st.pinned.empty()) { auto p = st.pinned.find(v.e->s1); if (p != st.pinned.end()) { std::vector<uint8_t> m(v.e->s1 + 1); m[v.e->s1] = p->second; evalNewStamp(); v = cv(evalExpr(v.e, m)); } }
      return v; };
    bool reachedJoin = false;
    auto jump = [&](Frame &fr, int tgt, int from) {
      fr.prevBlk = from;
      if (sp && st.st.size() == sp->depth && &fr == &st.st.back() && tgt == sp->join) { reachedJoin = true; return; }
      int pc = fr.f->blockStart[tgt];
      // phis in parallel
      Val tmp[64]; int np = 0; int p0 = pc; std::vector<Val> big;
      while (fr.f->code[pc].op == I_PHI) {
        const Inst &ph = fr.f->code[pc]; Val v;
        for (size_t k = 0; k < ph.tg.size(); k++) if (ph.tg[k] == from) { int32_t o = ph.ops[k]; v = o >= 0 ? fr.r[o] : consts[-o - 1]; break; }
        if (np < 64) tmp[np] = v; else big.push_back(v);
        np++; pc++;
      }
      for (int k = 0; k < np; k++) fr.r[fr.f->code[p0 + k].dst] = k < 64 ? tmp[k] : big[k - 64];
      fr.pc = pc;
    };
    nInst++; st.steps++; curI = x.src;
    if (sp && ++specInst > sp->limit) throw SpecFail();
    if ((nInst & 0xfff) == 0) { if (now() - tStart > timeLimit) { incomplete = true; incompleteWhy = "time limit"; stopNow = true; throw KillPath(); } }
    if (st.steps > maxSteps && hangIsError) { stopNow = true; killErr(st, "hang", "the code does not end", x.src); }
    if (st.steps > maxSteps) { incomplete = true; incompleteWhy = "step limit on a path at " + whereOf(x.src); throw KillPath(); }
    switch (x.op) {
    case I_BIN: {
      Val a = V(x.a), b = V(x.b); uint64_t m = MASK(x.w);
      if (x.sub == UDIV || x.sub == SDIV || x.sub == UREM || x.sub == SREM) {
        if (!b.e && (b.c & m) == 0) killErr(st, "div0", "division by zero", x.src);
        if (b.e) { E z = mkEq(b.e, mkConst(0, x.w)); std::vector<uint8_t> m2; if (evalIn(st, z)) { report(st, st.model, "div0", "division by zero", x.src); int r = checkSat(st, mkNot(z), &m2); if (r != 1) throw KillPath(); st.model = m2; addCons(st, mkNot(z)); }
          else { int r = checkSat(st, z, &m2); if (r == 1) report(st, m2, "div0", "division by zero", x.src); if (r != 0) addCons(st, mkNot(z)); } }
      }
      if (!a.e && !b.e) {
        uint64_t r;
        switch (x.sub) {
        case ADD: r = a.c + b.c; break; case 100: r = a.c - b.c; break; case MUL: r = a.c * b.c; break;
        case AND: r = a.c & b.c; break; case OR: r = a.c | b.c; break; case XOR: r = a.c ^ b.c; break;
        case SHL: r = a.c << (b.c % x.w); break; case LSHR: r = (a.c & m) >> (b.c % x.w); break; case ASHR: r = (uint64_t)(SX(a.c, x.w) >> (b.c % x.w)); break;
        case UDIV: r = (a.c & m) / (b.c & m); break; case UREM: r = (a.c & m) % (b.c & m); break;
        case SDIV: { int64_t p = SX(a.c, x.w), q = SX(b.c, x.w); r = q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q); break; }
        case SREM: { int64_t p = SX(a.c, x.w), q = SX(b.c, x.w); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
        default: r = 0;
        }
        f->r[x.dst] = cv(r & m);
      } else {
        E ea = toE(a, x.w), eb = toE(b, x.w); E r;
        if (x.sub == 100) r = mkSub(ea, eb);
        else if (x.sub == SHL || x.sub == LSHR || x.sub == ASHR) {
          if ((x.w & (x.w - 1)) == 0) eb = mkBin(AND, eb, mkConst(x.w - 1, x.w));
          r = mkBin((Op)x.sub, ea, eb);
        } else r = mkBin((Op)x.sub, ea, eb);
        f->r[x.dst] = simp(st, ev(r));
      }
      f->pc++; break; }
    case I_ICMP: {
      Val a = V(x.a), b = V(x.b); unsigned w = x.w2;
      if (!a.e && !b.e) {
        uint64_t p = a.c & MASK(w), q = b.c & MASK(w); int64_t sp = SX(p, w), sq = SX(q, w); bool r = false;
        switch (x.sub) { case CmpInst::ICMP_EQ: r = p == q; break; case CmpInst::ICMP_NE: r = p != q; break; case CmpInst::ICMP_UGT: r = p > q; break; case CmpInst::ICMP_UGE: r = p >= q; break;
          case CmpInst::ICMP_ULT: r = p < q; break; case CmpInst::ICMP_ULE: r = p <= q; break; case CmpInst::ICMP_SGT: r = sp > sq; break; case CmpInst::ICMP_SGE: r = sp >= sq; break;
          case CmpInst::ICMP_SLT: r = sp < sq; break; case CmpInst::ICMP_SLE: r = sp <= sq; break; }
        f->r[x.dst] = cv(r);
      } else {
        E p = toE(a, w), q = toE(b, w), r = nullptr;
        switch (x.sub) { case CmpInst::ICMP_EQ: r = mkEq(p, q); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(p, q)); break;
          case CmpInst::ICMP_UGT: r = mkUlt(q, p); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(p, q)); break; case CmpInst::ICMP_ULT: r = mkUlt(p, q); break; case CmpInst::ICMP_ULE: r = mkNot(mkUlt(q, p)); break;
          case CmpInst::ICMP_SGT: r = mkSlt(q, p); break; case CmpInst::ICMP_SGE: r = mkNot(mkSlt(p, q)); break; case CmpInst::ICMP_SLT: r = mkSlt(p, q); break; case CmpInst::ICMP_SLE: r = mkNot(mkSlt(q, p)); break; }
        f->r[x.dst] = simp(st, ev(r));
      }
      f->pc++; break; }
    case I_SEL: { Val c = simp(st, V(x.a)); if (!c.e) f->r[x.dst] = V((c.c & 1) ? x.b : x.c); else f->r[x.dst] = simp(st, ev(mkIte(c.e, toE(V(x.b), x.w), toE(V(x.c), x.w)))); f->pc++; break; }
    case I_ZEXT: { Val a = V(x.a); f->r[x.dst] = a.e ? ev(mkZExt(a.e, x.w)) : cv(a.c & MASK(x.w2)); f->pc++; break; }
    case I_SEXT: { Val a = V(x.a); f->r[x.dst] = a.e ? ev(mkSExt(a.e, x.w)) : cv((uint64_t)SX(a.c, x.w2) & MASK(x.w)); f->pc++; break; }
    case I_TRUNC: { Val a = V(x.a); f->r[x.dst] = a.e ? simp(st, ev(mkExtract(a.e, 0, x.w))) : cv(a.c & MASK(x.w)); f->pc++; break; }
    case I_COPY: f->r[x.dst] = V(x.a); f->pc++; break;
    case I_ALLOCA: { Val n = V(x.a); if (n.e) { n.c = concretizeE(st, n.e); } uint32_t id = newObj(st, x.cs[0] * n.c, 2, "stack variable", 0xAA); f->allocas.push_back(id); f->r[x.dst] = cv((uint64_t)id << 32); f->pc++; break; }
    case I_LOAD: { Val r = loadVal(st, *f, x, V(x.a)); f->r[x.dst] = r; f->pc++; break; }
    case I_STORE: storeVal(st, x, V(x.a), V(x.b)); f->pc++; break;
    case I_GEP: {
      Val p = V(x.a); uint64_t off = x.cs.back(); E se = nullptr;
      for (size_t k = 0; k < x.ops.size(); k++) { Val ix = V(x.ops[k]); unsigned w = x.tg[k];
        if (!ix.e) off += (uint64_t)SX(ix.c, w) * x.cs[k];
        else { E t = mkBin(MUL, mkSExt(ix.e, 64), mkConst(x.cs[k], 64)); se = se ? mkBin(ADD, se, t) : t; } }
      if (!p.e && !se) f->r[x.dst] = cv(p.c + off);
      else { E r; if (p.e) r = mkBin(ADD, p.e, mkConst(off, 64)); else r = mkConst(p.c + off, 64); if (se) r = mkBin(ADD, se, r); f->r[x.dst] = ev(r); }
      f->pc++; break; }
    case I_BR: jump(*f, x.tg[0], x.b); if (reachedJoin) return; break;
    case I_CBR: {
      Val c = simp(st, V(x.a)); bool t;
      if (!c.e) t = c.c & 1;
      else {
        E cond = c.e; bool v = evalIn(st, cond); std::vector<uint8_t> m2; int r = checkSat(st, v ? mkNot(cond) : cond, &m2);
        if (r == -1) { specCheck(); incomplete = true; incompleteWhy = "solver unknown on branch"; }
        if (r == 1) {
          auto go = [&](int k) { return [&, k](State &s, Spec *q) -> bool { Frame &fr = s.st.back(); fr.prevBlk = x.b; if (x.tg[k] == q->join) return true; jump(fr, x.tg[k], x.b); return false; }; };
          if (x.join >= 0 && tryMerge(st, x, cond, x.join, m2, go(0), go(1))) {
            f = &st.st.back();
            if (sp && st.st.size() == sp->depth && x.join == sp->join) { f->prevBlk = -2; return; }
            break;
          }
          specCheck();
          auto n = clone(st); n->model = std::move(m2); n->forks++; noteFork(st, cond); jump(n->st.back(), x.tg[v ? 1 : 0], x.b); addCons(*n, v ? mkNot(cond) : cond); work.push_back(std::move(n));
          addCons(st, v ? cond : mkNot(cond)); st.forks++;
        } else if (r == 0) { st.known[cond->id] = v; st.known[mkNot(cond)->id] = !v; }
        else addCons(st, v ? cond : mkNot(cond));
        t = v;
      }
      f = &st.st.back();
      jump(*f, x.tg[t ? 0 : 1], x.b); if (reachedJoin) return; break; }
    case I_SWITCH: {
      Val c = simp(st, V(x.a));
      if (c.e) {
        // decide case by case on the current model; the other side re-executes the switch
        uint64_t v = evalIn(st, c.e); int hit = -1; for (size_t k = 0; k < x.cs.size(); k++) if (x.cs[k] == v) hit = k;
        E cond;
        if (hit >= 0) { // group all cases with the same target
          cond = mkConst(0, 1); for (size_t k = 0; k < x.cs.size(); k++) if (x.tg[k + 1] == x.tg[hit + 1]) cond = mkBin(OR, cond, mkEq(c.e, mkConst(x.cs[k], x.w)));
        } else { cond = mkConst(1, 1); for (size_t k = 0; k < x.cs.size(); k++) cond = mkBin(AND, cond, mkNot(mkEq(c.e, mkConst(x.cs[k], x.w)))); }
        int tgt = hit >= 0 ? x.tg[hit + 1] : x.tg[0];
        Val kc = simp(st, ev(cond));
        if (kc.e) {
          std::vector<uint8_t> m2; int r = checkSat(st, mkNot(cond), &m2);
          if (r == -1) { specCheck(); incomplete = true; incompleteWhy = "solver unknown on switch"; }
          if (r == 1) {
            auto gA = [&](State &s, Spec *q) -> bool { Frame &fr = s.st.back(); fr.prevBlk = x.b; if (tgt == q->join) return true; jump(fr, tgt, x.b); return false; };
            auto gB = [&](State &s, Spec *q) -> bool { return false; };
            if (x.join >= 0 && tryMerge(st, x, cond, x.join, m2, gA, gB)) {
              f = &st.st.back();
              if (sp && st.st.size() == sp->depth && x.join == sp->join) { f->prevBlk = -2; return; }
              break;
            }
            specCheck();
            auto n = clone(st); n->model = std::move(m2); n->forks++; noteFork(st, cond); addCons(*n, mkNot(cond)); work.push_back(std::move(n));
            addCons(st, cond); st.forks++;
          } else if (r == 0) { st.known[cond->id] = 1; }
          else addCons(st, cond);
        }
        f = &st.st.back();
        jump(*f, tgt, x.b); if (reachedJoin) return;
      } else { int t = x.tg[0]; for (size_t k = 0; k < x.cs.size(); k++) if (x.cs[k] == (c.c & MASK(x.w))) { t = x.tg[k + 1]; break; } jump(*f, t, x.b); if (reachedJoin) return; }
      break; }
    case I_PHI: fprintf(stderr, "symx: stray phi\n"); exit(3);
    case I_RET: {
      if (sp && st.st.size() <= sp->depth) throw SpecFail();
      Val r; if (x.c) r = V(x.a);
      for (auto id : f->allocas) st.objs[id - 1] = ObjRef();
      st.st.pop_back();
      if (st.st.empty()) { finishPath(st); return; }
      f = &st.st.back(); { const Inst &ci = f->f->code[f->pc]; if (ci.dst >= 0) f->r[ci.dst] = r; } f->pc++; break; }
    case I_UNREACH: killErr(st, "unreachable", "unreachable code executed", x.src); break;
    case I_UNSUP: { std::string s; raw_string_ostream os(s); x.src->print(os); fprintf(stderr, "symx: unsupported instruction %s at %s\n", s.c_str(), whereOf(x.src).c_str()); exit(3); }
    case I_INTRIN: case I_CALL: {
      Func *fn = x.fn; uint16_t bi = x.op == I_INTRIN ? x.bi : 0;
      if (x.op == I_CALL) {
        if (!fn) { Val p = simp(st, V(x.a)); if (p.e) p.c = concretizeE(st, p.e), f = &st.st.back(); auto it = funcByObj.find(p.c >> 32); if (it == funcByObj.end() || (uint32_t)p.c) killErr(st, "memory", "call through invalid function pointer", x.src); fn = it->second; }
        bi = fn->bi;
      }
      if (!bi) {
        if (!fn->built) buildFunc(fn);
        fn->count++;
        if (st.st.size() > 400) killErr(st, "stack", "call depth exceeded", x.src);
        Frame nf; nf.f = fn; nf.pc = 0; nf.prevBlk = -1; nf.r.resize(fn->nslots);
        size_t na = fn->f->arg_size(); for (size_t k = 0; k < na && k < x.ops.size(); k++) nf.r[k] = V(x.ops[k]);
        st.st.push_back(std::move(nf));
        break;
      }
      auto C = [&](int k) -> uint64_t { Val v = simp(st, V(x.ops[k])); if (!v.e) return v.c; return concretizeE(st, v.e); };
      Val ret;
      if (sp && (bi == B_MAKE || bi == B_ASSUME || bi == B_ASSERT || bi == B_CONC || bi == B_OBSERVE || bi == B_REACH || bi == B_END || bi == B_MALLOC || bi == B_REALLOC || bi == B_CALLOC || bi == B_FREE || bi == B_EXIT)) throw SpecFail();
      switch (bi) {
      case B_MALLOC: { uint64_t n = C(0); ret = cv((uint64_t)newObj(st, n, 1, "heap block", 0xAA) << 32); break; }
      case B_REALLOC: { uint64_t p = C(0), n = C(1); uint32_t id = p >> 32;
          if (p && ((uint32_t)p || id > st.objs.size() || !id || !st.objs[id - 1].o || st.objs[id - 1].o->kind != 1)) killErr(st, "memory", "realloc of non-heap pointer", x.src);
          if (p && st.objs[id - 1].o->freed) killErr(st, "memory", "realloc of freed block", x.src);
          uint32_t ni = newObj(st, n, 1, "heap block", 0xAA);
          if (p) { uint64_t m = std::min<uint64_t>(n, st.objs[id - 1].o->size);
            for (uint64_t k = 0; k < m; ) { unsigned pn = k / PS; // share whole pages, copy the last one bytewise
              if (k + PS <= m) { Page *src = st.objs[id - 1].o->pg[pn]; ObjRec *d = st.objs[ni - 1].o; src->rc++; Page *old = d->pg[pn]; old->rc--; d->pg[pn] = src; k += PS; }
              else { writeAt(st, ni, k, 1, readAt(st.objs[id - 1].o, k, 1, 8), 8); k++; } }
            ObjRef &r = st.objs[id - 1]; if (r.o->rc > 1) { auto *nn = new ObjRec(*r.o); nn->rc = 0; for (auto pp : nn->pg) pp->rc++; r = ObjRef(nn); } r.o->freed = true; }
          ret = cv((uint64_t)ni << 32); break; }
      case B_CALLOC: { uint64_t n = C(0) * C(1); ret = cv((uint64_t)newObj(st, n, 1, "heap block", 0) << 32); break; }
      case B_FREE: { uint64_t p = C(0); if (p) { uint32_t id = p >> 32; if ((uint32_t)p || id > st.objs.size() || !id || !st.objs[id - 1].o || st.objs[id - 1].o->kind != 1) killErr(st, "memory", "free of non-heap pointer", x.src);
          if (st.objs[id - 1].o->freed) killErr(st, "memory", "double free", x.src);
          ObjRef &r = st.objs[id - 1]; if (r.o->rc > 1) { auto *n = new ObjRec(*r.o); n->rc = 0; for (auto pp : n->pg) pp->rc++; r = ObjRef(n); } r.o->freed = true; } break; }
      case B_MAKE: { uint64_t p = C(0), n = C(1); std::string nm = readStr(st, C(2)); uint32_t id = p >> 32, off = (uint32_t)p;
          st.symobjs.push_back({nm, st.nsyms, (uint32_t)n});
          for (uint64_t k = 0; k < n; k++) { Page *pg = wpage(st, id, (off + k) / PS); wbyteE(pg, (off + k) % PS, mkSym(st.nsyms++)); st.model.push_back(0); }
          break; }
      case B_ASSUME: { Val v = simp(st, V(x.ops[0])); unsigned w = x.tg[0]; if (!v.e) { if (!(v.c & MASK(w))) { nKilled++; return; } }
          else { E c = w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, w))); if (!isC(c)) { if (!evalIn(st, c)) { std::vector<uint8_t> m2; int r = checkSat(st, c, &m2); if (r == -1) { incomplete = true; incompleteWhy = "solver unknown on assume"; } if (r != 1) { nKilled++; return; } st.model = m2; } addCons(st, c); } else if (!c->c) { nKilled++; return; } }
          break; }
      case B_ASSERT: { Val v = simp(st, V(x.ops[0])); unsigned w = x.tg[0]; std::string lab = readStr(st, C(1)); nAsserts++; assertLabels[lab]++;
          E c = w == 1 ? toE(v, 1) : mkNot(mkEq(toE(v, w), mkConst(0, w)));
          if (isC(c)) { nTrivAssert++; if (!c->c) { report(st, st.model, "assert", lab, x.src); nErrPaths++; return; } }
          else { nAssertQ++; std::vector<uint8_t> m2;
            if (!evalIn(st, c)) { report(st, st.model, "assert", lab, x.src); int r = checkSat(st, c, &m2); if (r != 1) { nErrPaths++; return; } st.model = m2; addCons(st, c); }
            else { int r = checkSat(st, mkNot(c), &m2, true); if (r == 1) report(st, m2, "assert", lab, x.src); if (r == -1) { unresolvedAsserts++; incomplete = true; incompleteWhy = "solver unknown on assertion " + lab; } if (r != 0) addCons(st, c); else st.known[c->id] = 1; } }
          break; }
      case B_CONC: { uint64_t p = C(0), n = C(1); uint32_t id = p >> 32, off = (uint32_t)p; Val v = simp(st, readAt(st.objs[id - 1].o, off, n, 8 * n)); if (v.e) v = cv(concretizeE(st, v.e)); writeAt(st, id, off, n, v, 8 * n); break; }
      case B_OBSERVE: { st.obs.push_back(V(x.ops[0])); break; }
      case B_REACH: { reached[readStr(st, C(0))]++; break; }
      case B_END: finishPath(st); return;
      case B_EXIT: killErr(st, "exit", fn ? "program called " + fn->name : std::string("array index out of bounds (bounds check trap)"), x.src); break;
      case B_NOOP: ret = cv(0); break;
      case B_ISSYM: ret = cv(V(x.ops[0]).e != nullptr); break;
      case B_LIVEHEAP: { uint64_t n = 0; for (auto &r : st.objs) if (r.o && r.o->kind == 1 && !r.o->freed) n++; ret = cv(n); break; }
      case B_READABLE: { uint64_t p = C(0), n = C(1); uint32_t id = p >> 32; ret = cv(id && id <= st.objs.size() && st.objs[id-1].o && !st.objs[id-1].o->freed && (uint32_t)p + n <= st.objs[id-1].o->size); break; }
      case B_UNKNOWN: fprintf(stderr, "symx: call to unmodelled function %s at %s\n", fn->name.c_str(), whereOf(x.src).c_str()); exit(3);
      case B_MEMCPY: { uint64_t d = C(0), s = C(1), n = C(2); if (n) {
          Inst t = x; Loc ld = resolve(st, cv(d), n, t, true), ls = resolve(st, cv(s), n, t, false);
          std::vector<Val> tmp(n); for (uint64_t k = 0; k < n; k++) tmp[k] = readAt(st.objs[ls.id - 1].o, ls.off + k, 1, 8);
          for (uint64_t k = 0; k < n; k++) writeAt(st, ld.id, ld.off + k, 1, tmp[k], 8); }
          ret = cv(d); break; }
      case B_MEMSET: { uint64_t d = C(0), n = C(2); Val v = V(x.ops[1]); if (n) { Loc ld = resolve(st, cv(d), n, x, true); unsigned w = x.tg[1]; Val b = v.e ? ev(mkExtract(v.e, 0, 8)) : cv(v.c & 0xff); (void)w; for (uint64_t k = 0; k < n; k++) writeAt(st, ld.id, ld.off + k, 1, b, 8); } ret = cv(d); break; }
      case B_FSH: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), b = toE(V(x.ops[1]), w), s = toE(V(x.ops[2]), w); s = mkBin(UREM, s, mkConst(w, w));
          E inv = mkSub(mkConst(w, w), s); E z = mkEq(s, mkConst(0, w)); E r;
          if (x.sub == 0) r = mkIte(z, a, mkBin(OR, mkBin(SHL, a, s), mkBin(LSHR, b, inv))); else r = mkIte(z, b, mkBin(OR, mkBin(LSHR, b, s), mkBin(SHL, a, inv)));
          ret = ev(r); break; }
      case B_MINMAX: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), b = toE(V(x.ops[1]), w); E lt = x.sub < 2 ? mkUlt(a, b) : mkSlt(a, b); ret = ev((x.sub & 1) ? mkIte(lt, b, a) : mkIte(lt, a, b)); break; }
      case B_ABS: { unsigned w = x.w; E a = toE(V(x.ops[0]), w); ret = ev(mkIte(mkSlt(a, mkConst(0, w)), mkSub(mkConst(0, w), a), a)); break; }
      case B_BSWAP: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), r = nullptr; for (unsigned k = 0; k < w; k += 8) { E b = mkExtract(a, k, 8); r = r ? mkConcat(r, b) : b; } ret = ev(r); break; }
      case B_CTPOP: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(ADD, r, mkZExt(mkExtract(a, k, 1), w)); ret = ev(r); break; }
      case B_USUBSAT: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), b = toE(V(x.ops[1]), w); ret = ev(mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b))); break; }
      case B_UADDSAT: { unsigned w = x.w; E a = toE(V(x.ops[0]), w), b = toE(V(x.ops[1]), w), s = mkBin(ADD, a, b); ret = ev(mkIte(mkUlt(s, a), mkConst(~0ull, w), s)); break; }
      default: fprintf(stderr, "symx: builtin %d\n", bi); exit(3);
      }
      f = &st.st.back();
      if (x.dst >= 0) f->r[x.dst] = simp(st, ret);
      f->pc++; break; }
    }
  }
}

static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char **argv) {
  std::string file, out, entry = "harness"; std::vector<std::pair<std::string, uint64_t>> sets;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--time") timeLimit = atof(nx().c_str());
    else if (a == "--max-paths") maxPaths = atoll(nx().c_str()); else if (a == "--max-steps") maxSteps = atoll(nx().c_str()); else if (a == "--qtimeout") queryTimeout = atoi(nx().c_str());
    else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "--seed") rngs ^= (uint64_t)atoll(nx().c_str()) * 0x9E3779B97F4A7C15ull;
    else if (a == "--set") { std::string s = nx(); auto p = s.find('='); sets.push_back({s.substr(0, p), strtoull(s.c_str() + p + 1, 0, 0)}); }
    else if (a == "--hang") { hangIsError = true; maxSteps = atoll(nx().c_str()); } else if (a == "--no-dom") useDom = false; else if (a == "--prof") profForks = true; else if (a == "--no-merge") noMerge = true; else if (a == "--spec-limit") specLimit = atoll(nx().c_str()); else if (a == "--spec-depth") maxSpecDepth = atoi(nx().c_str()); else if (a == "--stop-on-fail") stopOnFail = true; else if (a == "--fails") maxFailPerLabel = atoi(nx().c_str());
    else if (a == "--noop") { std::string s = nx(), t; for (char c : s + ",") if (c == ',') { if (!t.empty()) noops.insert(t); t.clear(); } else t += c; }
    else file = a;
  }
  SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, z3err);
  zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  Z3_params pr = Z3_mk_params(zc); Z3_params_inc_ref(zc, pr); Z3_params_set_uint(zc, pr, Z3_mk_string_symbol(zc, "timeout"), queryTimeout); Z3_solver_set_params(zc, zs, pr);
  zeroPage = new Page; zeroPage->rc = 1000000; memset(zeroPage->c, 0, PS);
  auto s0 = std::make_unique<State>();
  // globals placed in a named section form one object, in order, with 64 bytes of other (zero) data on either side
  std::map<std::string, uint64_t> secSize; std::map<std::string, uint32_t> secObj;
  auto gsize = [&](const GlobalVariable &g) { return g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; };
  for (auto &g : M->globals()) if (g.hasSection() && g.hasInitializer()) {
    uint64_t &n = secSize.emplace(g.getSection().str(), 64).first->second, al = g.getAlign() ? g.getAlign()->value() : 1;
    n = (n + al - 1) / al * al; gvOff[&g] = n; n += gsize(g); }
  for (auto &p : secSize) secObj[p.first] = newObj(*s0, p.second + 64, 0, (new std::string(p.first))->c_str(), 0);
  for (auto &g : M->globals()) { if (gvOff.count(&g)) { gvObj[&g] = secObj[g.getSection().str()]; continue; }
    std::string *nm = new std::string(g.getName().str()); gvObj[&g] = newObj(*s0, gsize(g), 0, nm->c_str(), 0); }
  for (auto &fn : *M) { if (fn.isIntrinsic()) continue; Func *F = getFunc(&fn); F->objid = newObj(*s0, 1, 3, F->name.c_str(), 0); funcByObj[F->objid] = F; }
  for (auto &g : M->globals()) if (g.hasInitializer()) initConst(*s0, gvObj[&g], gvOff.count(&g) ? gvOff[&g] : 0, g.getInitializer());
  for (auto &p : sets) { auto *g = M->getNamedGlobal(p.first); if (!g) { fprintf(stderr, "symx: no global %s\n", p.first.c_str()); return 3; } writeAt(*s0, gvObj[g], 0, DL->getTypeStoreSize(g->getValueType()), cv(p.second), 64); }
  Function *ef = M->getFunction(entry); if (!ef) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 3; }
  Func *EF = getFunc(ef); buildFunc(EF); EF->count++;
  Frame f0; f0.f = EF; f0.pc = 0; f0.prevBlk = -1; f0.r.resize(EF->nslots); s0->st.push_back(std::move(f0));
  tStart = now(); work.push_back(std::move(s0));
  while (!work.empty() && !stopNow) {
    if (nPaths >= maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
    auto s = std::move(work.back()); work.pop_back();
    try { run(*s); } catch (KillPath &) { }
  }
  if (!work.empty() && !incomplete && !stopOnFail) { incomplete = true; }
  if (profForks) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : forkAt) v.push_back({p.second, whereOf(p.first)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "fork %lu %s\n", v[i].first, v[i].second.c_str()); v.clear(); for (auto &p : forkSym) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "on %lu %s\n", v[i].first, v[i].second.c_str()); }
  for (auto &p : funcs) if (p.second->count) funcCount[p.first->getName().str()] = p.second->count;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fo, "{\"paths\":%lu,\"killed\":%lu,\"errpaths\":%lu,\"forks\":%lu,\"merges\":%lu,\"merge_fails\":%lu,\"instructions\":%lu,\"queries\":%lu,\"cache_hits\":%lu,\"byte_domain\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"max_rss_kb\":%ld,",
    nPaths, nKilled, nErrPaths, nForks, nMerges, nMergeFail, nInst, nQueries, nCacheHit, nDom, nSat, nUnsat, nUnknown, tSolver, maxQuery, now() - tStart, ru.ru_maxrss);
  fprintf(fo, "\"asserts\":%lu,\"asserts_trivial\":%lu,\"asserts_solver\":%lu,\"unresolved\":%u,\"incomplete\":%s,\"incomplete_why\":%s,\"pending\":%lu,", nAsserts, nTrivAssert, nAssertQ, unresolvedAsserts, incomplete ? "true" : "false", jstr(incompleteWhy).c_str(), (unsigned long)work.size());
  auto pm = [&](const char *n, std::map<std::string, uint64_t> &m) { fprintf(fo, "\"%s\":{", n); bool fst = true; for (auto &p : m) { fprintf(fo, "%s%s:%lu", fst ? "" : ",", jstr(p.first).c_str(), p.second); fst = false; } fprintf(fo, "},"); };
  pm("labels", assertLabels); pm("reached", reached); pm("functions", funcCount);
  auto pin = [&](const std::vector<std::pair<std::string, std::string>> &v) { fprintf(fo, "["); for (size_t i = 0; i < v.size(); i++) fprintf(fo, "%s[%s,%s]", i ? "," : "", jstr(v[i].first).c_str(), jstr(v[i].second).c_str()); fprintf(fo, "]"); };
  fprintf(fo, "\"failures\":["); for (size_t i = 0; i < failures.size(); i++) { auto &x = failures[i]; fprintf(fo, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"inputs\":", i ? "," : "", jstr(x.kind).c_str(), jstr(x.label).c_str(), jstr(x.where).c_str()); pin(x.inputs); fprintf(fo, "}"); }
  fprintf(fo, "],\"samples\":["); for (size_t i = 0; i < samples.size(); i++) { fprintf(fo, "%s{\"inputs\":", i ? "," : ""); pin(samples[i].inputs); fprintf(fo, ",\"obs\":["); for (size_t k = 0; k < samples[i].obs.size(); k++) fprintf(fo, "%s%lu", k ? "," : "", samples[i].obs[k]); fprintf(fo, "]}"); }
  fprintf(fo, "]}\n"); if (fo != stdout) fclose(fo);
  fflush(stdout); _exit(failures.empty() ? 0 : 1);
}
