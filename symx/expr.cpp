#include "expr.h"
#include <deque>
#include <unordered_set>

static std::deque<Expr> arena;
struct KeyHash { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
  h ^= e->c + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  for (int i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0xff51afd7ed558ccdull, h ^= h >> 32;
  return h; } };
struct KeyEq { bool operator()(const Expr *a, const Expr *b) const {
  if (a->op != b->op || a->w != b->w || a->c != b->c || a->nk != b->nk) return false;
  for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
  return true; } };
static std::unordered_set<const Expr *, KeyHash, KeyEq> table;
uint32_t exprCount() { return arena.size(); }

static void known(Expr &e) {
  uint64_t m = MASK(e.w);
  E a = e.nk > 0 ? e.k[0] : nullptr, b = e.nk > 1 ? e.k[1] : nullptr;
  e.k0 = e.k1 = 0;
  switch (e.op) {
  case CONST: e.k1 = e.c; e.k0 = ~e.c & m; break;
  case AND: e.k1 = a->k1 & b->k1; e.k0 = a->k0 | b->k0; break;
  case OR: e.k1 = a->k1 | b->k1; e.k0 = a->k0 & b->k0; break;
  case XOR: e.k1 = (a->k1 & b->k0) | (a->k0 & b->k1); e.k0 = (a->k0 & b->k0) | (a->k1 & b->k1); break;
  case ADD: {
    // known bits of an addition (carry-in 0)
    uint64_t possSum0 = (~a->k0 & m) + (~b->k0 & m);   // max
    uint64_t possSum1 = a->k1 + b->k1;                 // min
    uint64_t ck0 = ~(possSum0 ^ a->k0 ^ b->k0) ;       // carry known zero
    uint64_t ck1 = possSum1 ^ a->k1 ^ b->k1;           // carry known one
    // following LLVM KnownBits::computeForAddCarry
    ck0 = ~(possSum0 ^ (~a->k0 & m) ^ (~b->k0 & m));
    uint64_t kn = (a->k0 | a->k1) & (b->k0 | b->k1) & (ck0 | ck1) & m;
    e.k1 = possSum1 & kn; e.k0 = ~possSum1 & kn & m;
    break; }
  case CONCAT: e.k1 = (a->k1 << b->w) | b->k1; e.k0 = (a->k0 << b->w) | b->k0; break;
  case EXTRACT: e.k1 = (a->k1 >> e.c) & m; e.k0 = (a->k0 >> e.c) & m; break;
  case SEXT: {
    e.k1 = a->k1; e.k0 = a->k0;
    uint64_t s = 1ull << (a->w - 1), hi = m & ~MASK(a->w);
    if (a->k1 & s) e.k1 |= hi; if (a->k0 & s) e.k0 |= hi; break; }
  case ITE: e.k1 = e.k[1]->k1 & e.k[2]->k1; e.k0 = e.k[1]->k0 & e.k[2]->k0; break;
  case MUL: {
    int ta = __builtin_ctzll(~a->k0 | (1ull<<63)), tb = __builtin_ctzll(~b->k0 | (1ull<<63));
    int t = ta + tb; if (t > 63) t = 63; e.k0 = MASK(t) & m;
    uint64_t ma = ~a->k0 & MASK(a->w), mb = ~b->k0 & MASK(b->w);
    unsigned __int128 p = (unsigned __int128)ma * mb;
    if (p <= m) { uint64_t pm = (uint64_t)p; int hb = pm ? 64 - __builtin_clzll(pm) : 0; e.k0 |= m & ~MASK(hb); }
    break; }
  case UDIV: { uint64_t ma = ~a->k0 & m; int hb = ma ? 64 - __builtin_clzll(ma) : 0; if (b->k1) e.k0 = m & ~MASK(hb); break; }
  case UREM: { uint64_t ma = ~b->k0 & m; int hb = ma ? 64 - __builtin_clzll(ma) : 0; if (b->k1) e.k0 = m & ~MASK(hb); break; }
  case SHL: if (0) {} break;
  case LSHR: { uint64_t ma = ~a->k0 & m; int hb = ma ? 64 - __builtin_clzll(ma) : 0; e.k0 = m & ~MASK(hb); break; }
  default: break;
  }
}

static E intern(Op op, unsigned w, uint64_t c, int nk, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr t; t.op = op; t.w = w; t.nk = nk; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  t.id = 0;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.z = nullptr; t.syms = nullptr; t.evstamp = 0; t.ev = 0;
  t.s1 = op == SYM ? (int32_t)c : -1;
  for (int i = 0; i < nk; i++) { int32_t q = t.k[i]->s1; if (q != -1) t.s1 = t.s1 == -1 || t.s1 == q ? q : -2; }
  known(t);
  if (op != CONST && ((t.k0 | t.k1) == MASK(w))) return mkConst(t.k1, w);
  t.id = arena.size() + 1;
  arena.push_back(t);
  E r = &arena.back();
  table.insert(r);
  return r;
}

E mkConst(uint64_t v, unsigned w) { return intern(CONST, w, v & MASK(w), 0); }
E mkSym(uint32_t idx) { return intern(SYM, 8, idx, 0); }

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = MASK(w); a &= m; b &= m;
  switch (op) {
  case ADD: return (a + b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m;
  case SDIV: { if (!b) return SX(a, w) < 0 ? 1 : m; int64_t x = SX(a, w), y = SX(b, w); if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case UREM: return b ? a % b : a;
  case SREM: { if (!b) return a; int64_t x = SX(a, w), y = SX(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return b >= w ? (SX(a, w) < 0 ? m : 0) : (uint64_t)(SX(a, w) >> b) & m;
  default: abort();
  }
}

E mkNot(E a) { return mkBin(XOR, a, mkConst(~0ull, a->w)); }
E mkSub(E a, E b) {
  if (a == b) return mkConst(0, a->w);
  if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->c, a->w));
  // a - b = a + ~b + 1
  return mkBin(ADD, mkBin(ADD, a, mkNot(b)), mkConst(1, a->w));
}

// Split into concat when operand sets are disjoint at a boundary
static E disjoint(E a, E b) {
  unsigned w = a->w; uint64_t m = MASK(w);
  // find boundary p: one operand zero in the low p bits, other zero above p
  for (int sw = 0; sw < 2; sw++) {
    E lo = sw ? b : a, hi = sw ? a : b;
    uint64_t lm = ~lo->k0 & m; int p = lm ? 64 - __builtin_clzll(lm) : 0;
    if (p > 0 && p < (int)w && (hi->k0 & MASK(p)) == MASK(p))
      return mkConcat(mkExtract(hi, p, w - p), mkExtract(lo, 0, p));
  }
  return nullptr;
}

static E mkBin0(Op op, E a, E b);
static std::unordered_map<uint64_t, E> memoB;
E mkBin(Op op, E a, E b) {
  if (!(a->op == ITE || a->op == CONCAT) || !isC(b)) return mkBin0(op, a, b);
  uint64_t key = ((uint64_t)op << 59) ^ ((uint64_t)a->id << 30) ^ b->id;
  auto it = memoB.find(key); if (it != memoB.end()) return it->second;
  E r = mkBin0(op, a, b); memoB[key] = r; return r;
}
static E mkBin0(Op op, E a, E b) {
  unsigned w = a->w; uint64_t m = MASK(w);
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);   // const on the right
  switch (op) {
  case ADD:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if ((b->c & ~a->k0 & m) == 0) return mkBin(OR, a, b);
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]))
        return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
    } else {
      if ((~a->k0 & ~b->k0 & m) == 0) return mkBin(OR, a, b);
      if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
      if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
      // x + ~x = -1
      if (b->op == XOR && isC(b->k[1]) && b->k[1]->c == m && b->k[0] == a) return mkConst(m, w);
      if (a->op == XOR && isC(a->k[1]) && a->k[1]->c == m && a->k[0] == b) return mkConst(m, w);
    }
    break;
  case MUL:
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mkBin(SHL, a, mkConst(__builtin_ctzll(b->c), w));
    }
    break;
  case UDIV: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->c), w)); break;
  case UREM: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(b->c - 1, w)); break;
  case AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b;
      if ((b->c | a->k0) == m) return a;           // mask only clears known zeros
      // restrict mask to unknown-or-one bits
      uint64_t c = b->c & ~a->k0;
      if (c == 0) return mkConst(0, w);
      if (a->op == AND && isC(a->k[1])) return mkBin(AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
      // contiguous mask -> extract
      int lo = __builtin_ctzll(c), hi = 64 - __builtin_clzll(c);
      if (c == (MASK(hi) & ~MASK(lo))) {
        E x = mkExtract(a, lo, hi - lo);
        if (lo) x = mkConcat(x, mkConst(0, lo));
        return mkZExt(x, w);
      }
      if (a->op == CONCAT) {
        unsigned lw = a->k[1]->w;
        return mkConcat(mkBin(AND, a->k[0], mkConst(c >> lw, a->k[0]->w)), mkBin(AND, a->k[1], mkConst(c & MASK(lw), lw)));
      }
      if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])))
        return mkIte(a->k[0], mkBin(AND, a->k[1], b), mkBin(AND, a->k[2], b));
      if (c != b->c) b = mkConst(c, w);
    } else {
      if ((~a->k0 & ~b->k0 & m) == 0) return mkConst(0, w);
    }
    break;
  case OR:
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c == m) return b;
      if ((b->c & ~a->k1) == 0) return a;
    }
    if ((~a->k0 & ~b->k0 & m) == 0) { if (E r = disjoint(a, b)) return r; }
    if (isC(b)) {
      if (a->op == CONCAT) {
        unsigned lw = a->k[1]->w;
        return mkConcat(mkBin(OR, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(OR, a->k[1], mkConst(b->c & MASK(lw), lw)));
      }
      if (a->op == OR && isC(a->k[1])) return mkBin(OR, a->k[0], mkConst(a->k[1]->c | b->c, w));
    } else if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
      return mkConcat(mkBin(OR, a->k[0], b->k[0]), mkBin(OR, a->k[1], b->k[1]));
    break;
  case XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (a->op == CONCAT) {
        unsigned lw = a->k[1]->w;
        return mkConcat(mkBin(XOR, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(XOR, a->k[1], mkConst(b->c & MASK(lw), lw)));
      }
      if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])))
        return mkIte(a->k[0], mkBin(XOR, a->k[1], b), mkBin(XOR, a->k[2], b));
    } else {
      if (a->op == XOR && (a->k[0] == b)) return a->k[1];
      if (a->op == XOR && (a->k[1] == b)) return a->k[0];
      if (b->op == XOR && (b->k[0] == a)) return b->k[1];
      if (b->op == XOR && (b->k[1] == a)) return b->k[0];
      if ((~a->k0 & ~b->k0 & m) == 0) { if (E r = disjoint(a, b)) return r; }
      if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
        return mkConcat(mkBin(XOR, a->k[0], b->k[0]), mkBin(XOR, a->k[1], b->k[1]));
    }
    break;
  case SHL:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
    }
    if (isC(a) && a->c == 0) return a;
    break;
  case LSHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, b->c, w - b->c), w);
    }
    if (isC(a) && a->c == 0) return a;
    break;
  case ASHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      uint64_t s = b->c >= w ? w - 1 : b->c;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    if (isC(a) && a->c == 0) return a;
    break;
  default: break;
  }
  return intern(op, w, 0, 2, a, b);
}

// shared if-then-else graphs are traversed once: results of the pushing
// constructors are remembered
static std::unordered_map<uint64_t, E> memoX, memoEq;
static E mkExtract0(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w) {
  if (w == a->w || isC(a) || a->op == SYM || a->op == EXTRACT) return mkExtract0(a, lo, w);
  uint64_t key = ((uint64_t)a->id << 16) | (lo << 8) | w;
  auto it = memoX.find(key); if (it != memoX.end()) return it->second;
  E r = mkExtract0(a, lo, w); memoX[key] = r; return r;
}
static E mkExtract0(E a, unsigned lo, unsigned w) {
  if (lo + w > a->w || w == 0) { fprintf(stderr, "bad extract %u %u of %u\n", lo, w, a->w); abort(); }
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  uint64_t kk = ((a->k0 | a->k1) >> lo) & MASK(w);
  if (kk == MASK(w)) return mkConst(a->k1 >> lo, w);
  switch (a->op) {
  case EXTRACT: return mkExtract(a->k[0], a->c + lo, w);
  case CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  case SEXT: {
    unsigned iw = a->k[0]->w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (lo >= iw) return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
    return mkSExt(mkExtract(a->k[0], lo, iw - lo), w); }
  case AND: case OR: case XOR:
    return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case ADD: case MUL:
    if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case ITE:
    if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == ITE || a->k[2]->op == ITE || a->k[1]->op == CONCAT || a->k[2]->op == CONCAT)
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  default: break;
  }
  // trim known-zero high part: keep canonical zero-extension outside
  uint64_t un = ~(a->k0 >> lo) & MASK(w);
  int hb = un ? 64 - __builtin_clzll(un) : 0;
  if (hb < (int)w && hb > 0) return mkZExt(mkExtract(a, lo, hb), w);
  return intern(EXTRACT, w, lo, 1, a);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  // right-assoc normal form: concat(a, concat(b, c)); hi must not be CONCAT
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  // merge adjacent extracts
  E l1 = lo->op == CONCAT ? lo->k[0] : lo;
  E rest = lo->op == CONCAT ? lo->k[1] : nullptr;
  E merged = nullptr;
  if (isC(hi) && isC(l1)) merged = mkConst((hi->c << l1->w) | l1->c, hi->w + l1->w);
  else {
    E hs = hi->op == EXTRACT ? hi->k[0] : hi, ls = l1->op == EXTRACT ? l1->k[0] : l1;
    unsigned ho = hi->op == EXTRACT ? hi->c : 0, lo_ = l1->op == EXTRACT ? l1->c : 0;
    if (hs == ls && (hi->op == EXTRACT || l1->op == EXTRACT) && ho == lo_ + l1->w) merged = mkExtract(hs, lo_, hi->w + l1->w);
  }
  if (merged) return rest ? mkConcat(merged, rest) : merged;
  if (hi->op == ITE && l1->op == ITE && hi->k[0] == l1->k[0]) {
    E m2 = mkIte(hi->k[0], mkConcat(hi->k[1], l1->k[1]), mkConcat(hi->k[2], l1->k[2]));
    return rest ? mkConcat(m2, rest) : m2;
  }
  return intern(CONCAT, w, 0, 2, hi, lo);
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  return mkConcat(mkConst(0, w - a->w), a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(SX(a->c, a->w), w);
  if (a->k0 & (1ull << (a->w - 1))) return mkZExt(a, w);
  if (a->op == SEXT) return mkSExt(a->k[0], w);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(SEXT, w, 0, 1, a);
}

static E mkEq0(E a, E b);
E mkEq(E a, E b) {
  if (a == b || (isC(a) && isC(b)) || !(a->op == ITE || b->op == ITE || a->op == CONCAT || b->op == CONCAT)) return mkEq0(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = memoEq.find(key); if (it != memoEq.end()) return it->second;
  E r = mkEq0(a, b); memoEq[key] = r; return r;
}
static E mkEq0(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if ((a->k0 & b->k1) | (a->k1 & b->k0)) return mkConst(0, 1);
  if (isC(a)) std::swap(a, b);
  if (a->w == 1) {
    if (isC(b)) return b->c ? a : mkNot(a);
    return mkNot(mkBin(XOR, a, b));
  }
  if (isC(b)) {
    switch (a->op) {
    case CONCAT: {
      unsigned lw = a->k[1]->w;
      E h = mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->w));
      E l = mkEq(a->k[1], mkConst(b->c, lw));
      if (isC(a->k[0])) return isC(h) ? (h->c ? l : h) : mkBin(AND, h, l);
      return mkBin(AND, h, l); }
    case ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w)); break;
    case XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->w)); break;
    case SEXT: {
      E x = a->k[0]; uint64_t lowc = b->c & MASK(x->w);
      if ((uint64_t)(SX(lowc, x->w)) == (uint64_t)SX(b->c, a->w)) return mkEq(x, mkConst(lowc, x->w));
      return mkConst(0, 1); }
    case ITE:
      if (isC(a->k[1]) || isC(a->k[2])) {
        E t = mkEq(a->k[1], b), f = mkEq(a->k[2], b);
        return mkIte(a->k[0], t, f);
      }
      break;
    default: break;
    }
  } else {
    if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
      return mkBin(AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(EQ, 1, 0, 2, a, b);
}

E mkUlt(E a, E b) {
  unsigned w = a->w; uint64_t m = MASK(w);
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
  uint64_t amin = a->k1, amax = ~a->k0 & m, bmin = b->k1, bmax = ~b->k0 & m;
  if (amax < bmin) return mkConst(1, 1);
  if (amin >= bmax) return mkConst(0, 1);
  if (w == 1) return mkBin(AND, mkNot(a), b);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  // strip common zero-extension
  uint64_t un = (~a->k0 | ~b->k0) & m; int hb = un ? 64 - __builtin_clzll(un) : 1;
  if (hb < (int)w) return mkUlt(mkExtract(a, 0, hb), mkExtract(b, 0, hb));
  return intern(ULT, 1, 0, 2, a, b);
}
E mkSlt(E a, E b) {
  unsigned w = a->w;
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(SX(a->c, w) < SX(b->c, w), 1);
  uint64_t s = 1ull << (w - 1);
  if ((a->k0 & s) && (b->k0 & s)) return mkUlt(a, b);
  if ((a->k1 & s) && (b->k1 & s)) return mkUlt(a, b);
  if ((a->k1 & s) && (b->k0 & s)) return mkConst(1, 1);
  if ((a->k0 & s) && (b->k1 & s)) return mkConst(0, 1);
  if (isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->c == MASK(w)) return mkNot(mkExtract(b, w - 1, 1));
  return intern(SLT, 1, 0, 2, a, b);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    if (a == mkNot(b)) return mkBin(XOR, c, b);
  } else {
    // split off common known bits at the top / bottom
    uint64_t m = MASK(a->w);
    uint64_t same = ((a->k0 & b->k0) | (a->k1 & b->k1)) & m;
    uint64_t diff = ~same & m;
    if (diff) {
      int lo = __builtin_ctzll(diff), hi = 64 - __builtin_clzll(diff);
      if (lo > 0 || hi < (int)a->w) {
        E mid = mkIte(c, mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo));
        if (lo) mid = mkConcat(mid, mkExtract(mkConst(a->k1, a->w), 0, lo));
        if (hi < (int)a->w) mid = mkConcat(mkExtract(mkConst(a->k1, a->w), hi, a->w - hi), mid);
        return mid;
      }
    }
    if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
      return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
  }
  return intern(ITE, a->w, 0, 3, c, a, b);
}

static uint32_t stamp = 1;
void evalNewStamp() { stamp++; }
uint64_t evalExpr(E e, const std::vector<uint8_t> &mod) {
  if (e->op == CONST) return e->c;
  if (e->evstamp == stamp) return e->ev;
  uint64_t r = 0, m = MASK(e->w);
  switch (e->op) {
  case SYM: r = e->c < mod.size() ? mod[e->c] : 0; break;
  case CONCAT: r = (evalExpr(e->k[0], mod) << e->k[1]->w) | evalExpr(e->k[1], mod); break;
  case EXTRACT: r = (evalExpr(e->k[0], mod) >> e->c) & m; break;
  case SEXT: r = (uint64_t)SX(evalExpr(e->k[0], mod), e->k[0]->w) & m; break;
  case EQ: r = evalExpr(e->k[0], mod) == evalExpr(e->k[1], mod); break;
  case ULT: r = evalExpr(e->k[0], mod) < evalExpr(e->k[1], mod); break;
  case SLT: r = SX(evalExpr(e->k[0], mod), e->k[0]->w) < SX(evalExpr(e->k[1], mod), e->k[0]->w); break;
  case ITE: r = evalExpr(e->k[0], mod) ? evalExpr(e->k[1], mod) : evalExpr(e->k[2], mod); break;
  default: r = foldBin(e->op, evalExpr(e->k[0], mod), evalExpr(e->k[1], mod), e->w); break;
  }
  e->ev = r; e->evstamp = stamp;
  return r;
}

static Z3_ast b1(Z3_context c, Z3_ast boolean) {
  Z3_sort s = Z3_mk_bv_sort(c, 1);
  return Z3_mk_ite(c, boolean, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s));
}
// boolean (Z3 Bool) view of a 1-bit expression: keeps queries compact
static Z3_ast asBool(Z3_context ctx, E e);
Z3_ast toZ3(Z3_context ctx, E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr; Z3_ast a, b;
  switch (e->op) {
  case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
  case SYM: { char n[32]; snprintf(n, sizeof n, "s%lu", (unsigned long)e->c);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, 8)); break; }
  case EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, toZ3(ctx, e->k[0])); break;
  case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, toZ3(ctx, e->k[0])); break;
  case EQ: case ULT: case SLT: r = b1(ctx, asBool(ctx, e)); break;
  case ITE: r = Z3_mk_ite(ctx, asBool(ctx, e->k[0]), toZ3(ctx, e->k[1]), toZ3(ctx, e->k[2])); break;
  default:
    a = toZ3(ctx, e->k[0]); b = toZ3(ctx, e->k[1]);
    switch (e->op) {
    case ADD: r = Z3_mk_bvadd(ctx, a, b); break;
    case MUL: r = Z3_mk_bvmul(ctx, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
    case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case AND: r = Z3_mk_bvand(ctx, a, b); break;
    case OR: r = Z3_mk_bvor(ctx, a, b); break;
    case XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case SHL: r = Z3_mk_bvshl(ctx, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
    case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    case CONCAT: r = Z3_mk_concat(ctx, a, b); break;
    default: abort();
    }
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}
static Z3_ast asBool(Z3_context ctx, E e) {
  switch (e->op) {
  case EQ: return Z3_mk_eq(ctx, toZ3(ctx, e->k[0]), toZ3(ctx, e->k[1]));
  case ULT: return Z3_mk_bvult(ctx, toZ3(ctx, e->k[0]), toZ3(ctx, e->k[1]));
  case SLT: return Z3_mk_bvslt(ctx, toZ3(ctx, e->k[0]), toZ3(ctx, e->k[1]));
  default: return Z3_mk_eq(ctx, toZ3(ctx, e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
  }
}

const std::vector<uint32_t> &symsOf(E e) {
  if (e->syms) return *e->syms;
  auto *v = new std::vector<uint32_t>;
  if (e->op == SYM) v->push_back(e->c);
  for (int i = 0; i < e->nk; i++) {
    const auto &o = symsOf(e->k[i]);
    if (v->empty()) *v = o;
    else if (&o != v) { std::vector<uint32_t> t; std::set_union(v->begin(), v->end(), o.begin(), o.end(), std::back_inserter(t)); v->swap(t); }
  }
  e->syms = v;
  return *v;
}
std::string exprStr(E e, int d) {
  static const char *n[] = {"const","s","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>",">>s","cat","ext","sext","==","u<","s<","ite"};
  char b[64];
  if (e->op == CONST) { snprintf(b, 64, "%lx:%d", (unsigned long)e->c, e->w); return b; }
  if (e->op == SYM) { snprintf(b, 64, "s%lu", (unsigned long)e->c); return b; }
  if (d == 0) return "...";
  std::string r = "("; r += n[e->op];
  if (e->op == EXTRACT) { snprintf(b, 64, "[%lu+%d]", (unsigned long)e->c, e->w); r += b; }
  for (int i = 0; i < e->nk; i++) r += " " + exprStr(e->k[i], d - 1);
  return r + ")";
}
