// Hash-consed bit-vector / floating-point expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  // Floating point; operand width 32 or 64 selects the format.
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM,
  E_FEQ, E_FLT, E_FLE, E_FISNAN,
  E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FCVT, E_FROUND /* aux: 0 floor,1 ceil,2 trunc,3 rne,4 rna */, E_FSQRT,
  E_NUMOPS
};

struct Expr {
  Op op;
  u8 aux;        // FROUND mode
  uint16_t width;
  u32 id;
  u32 lo;        // EXTRACT low bit, SYM index
  u64 hash;
  const Expr* k[3];
  u128 val;      // CONST value; for SYM: maximum value
  mutable std::vector<u32>* syms = nullptr;  // sorted symbol ids, lazily built
  mutable u64 evalStamp = 0;
  mutable u128 evalVal = 0;
  mutable u128 minv, maxv;  // unsigned bounds
};
typedef const Expr* E;

struct SymInfo {
  std::string name;
  u32 width;
  E expr;
  u32 pathIdx = 0;
};
extern std::vector<SymInfo> g_syms;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextVal(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 sign = (u128)1 << (w - 1);
  v &= maskOf(w);
  return (s128)((v ^ sign) - sign);
}
inline bool isC(E e) { return e->op == E_CONST; }

E mkConst(u128 v, unsigned w);
E mkSym(u32 pathIdx, unsigned w, const char* name, u128 maxv);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned hi, unsigned lo);
E mkConcat(E hi, E lo);
E mkFUn(Op op, E a, unsigned w, u8 aux = 0);  // FISNAN, conversions, rounding
inline E mkTrue() { static E t = mkConst(1, 1); return t; }
inline E mkFalse() { static E t = mkConst(0, 1); return t; }
inline E mkAnd(E a, E b) { return mkBin(E_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(E_OR, a, b); }
inline E mkEq(E a, E b) { return mkBin(E_EQ, a, b); }

const std::vector<u32>& symsOf(E e);
struct Model;
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
u128 foldFUn(Op op, u128 a, unsigned iw, unsigned w, u8 aux);
u64 exprCount();

// Assignment of values to symbols (indexed by symbol id).
struct Model {
  std::vector<u64> v;
  u64 stamp = 1;
  static u64 nextStamp;
  u64 get(u32 s) const { return s < v.size() ? v[s] : 0; }
  void set(u32 s, u64 x) {
    if (s >= v.size()) v.resize(s + 1, 0);
    if (v[s] != x) { v[s] = x; stamp = ++nextStamp; }
  }
  void touch() { stamp = ++nextStamp; }
};
