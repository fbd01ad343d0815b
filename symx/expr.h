// Hash-consed bit-vector expressions (1..64 bit) with simplification and
// known-bits tracking, translated to Z3 on demand.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t { CONST, SYM, ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, EQ, ULT, SLT, ITE };

struct Expr;
typedef const Expr *E;
struct Expr {
  Op op; uint8_t w; uint8_t nk; uint32_t id;
  uint64_t c;          // CONST value, SYM index, EXTRACT low bit
  E k[3];
  uint64_t k0, k1;     // known zero / one bits
  int32_t s1;          // the only symbol it depends on; -1 none, -2 several
  mutable Z3_ast z;
  mutable const std::vector<uint32_t> *syms;
  mutable uint64_t ev; mutable uint32_t evstamp;
};

static inline uint64_t MASK(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t SX(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w));
}

E mkConst(uint64_t v, unsigned w);
E mkSym(uint32_t idx);                     // 8-bit symbol
E mkBin(Op op, E a, E b);
E mkSub(E a, E b);
E mkNot(E a);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
E mkIte(E c, E a, E b);
static inline bool isC(E e) { return e->op == CONST; }
uint64_t evalExpr(E e, const std::vector<uint8_t> &model);
void evalNewStamp();
Z3_ast toZ3(Z3_context ctx, E e);
const std::vector<uint32_t> &symsOf(E e);
uint32_t exprCount();
std::string exprStr(E e, int depth = 6);
