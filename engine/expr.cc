#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <deque>
#include <map>

std::vector<SymInfo> g_syms;
u64 Model::nextStamp = 1;

static std::deque<Expr> arena;
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t tableN = 0;
u64 exprCount() { return arena.size(); }

static inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

static void computeBounds(const Expr& e, u128& lo, u128& hi) {
  u128 m = maskOf(e.width);
  const E a = e.k[0], b = e.k[1];
  lo = 0;
  hi = m;
  switch (e.op) {
    case E_CONST: lo = hi = e.val; break;
    case E_SYM: hi = e.val & m; break;
    case E_ZEXT: lo = a->minv; hi = a->maxv; break;
    case E_AND: hi = std::min(a->maxv, b->maxv); break;
    case E_ITE: lo = std::min(e.k[1]->minv, e.k[2]->minv); hi = std::max(e.k[1]->maxv, e.k[2]->maxv); break;
    case E_UREM:
      hi = a->maxv;
      if (isC(b) && b->val) {
        hi = std::min(hi, b->val - 1);
        if (a->minv / b->val == a->maxv / b->val) { lo = a->minv % b->val; hi = a->maxv % b->val; }
      }
      break;
    case E_UDIV: if (isC(b) && b->val) { lo = a->minv / b->val; hi = a->maxv / b->val; } break;
    case E_ADD:
      if (e.width <= 120) {
        u128 s = a->maxv + b->maxv, l = a->minv + b->minv;
        if (s <= m) { hi = s; lo = l; }
        else if (l > m) { hi = s & m; lo = l & m; if (lo > hi) { lo = 0; hi = m; } }
      }
      break;
    case E_SUB:
      if (e.width <= 120) {
        if (a->minv >= b->maxv) { lo = a->minv - b->maxv; hi = a->maxv - b->minv; }
        else if (a->maxv < b->minv) { lo = (a->minv - b->maxv) & m; hi = (a->maxv - b->minv) & m; }
      }
      break;
    case E_MUL:
      if (e.width <= 64) {
        u128 s = a->maxv * b->maxv;
        if (s <= m) { hi = s; lo = a->minv * b->minv; }
      }
      break;
    case E_LSHR: if (isC(b) && b->val < e.width) { lo = a->minv >> b->val; hi = a->maxv >> b->val; } break;
    case E_OR: case E_XOR: {
      u128 s = a->maxv | b->maxv;
      for (int i = 1; i < 128; i <<= 1) s |= s >> i;
      hi = s & m;
      if (e.op == E_OR) lo = std::max(a->minv, b->minv);
      break;
    }
    case E_CONCAT:
      lo = (a->minv << b->width) + b->minv;
      hi = (a->maxv << b->width) | (a->minv == a->maxv ? b->maxv : maskOf(b->width));
      if (a->minv != a->maxv) lo = a->minv << b->width;
      break;
    case E_EXTRACT: {
      u128 s = a->maxv >> e.lo, l = a->minv >> e.lo;
      if (s <= m) { hi = s; lo = l; }
      else if ((s & ~m) == (l & ~m)) { hi = s & m; lo = l & m; }
      break;
    }
    default: break;
  }
}

static E intern(Expr& t) {
  u64 h = mix(t.op, t.width);
  h = mix(h, t.lo + ((u64)t.aux << 40));
  for (int i = 0; i < 3; i++) h = mix(h, t.k[i] ? t.k[i]->id + 1 : 0);
  h = mix(h, (u64)t.val);
  h = mix(h, (u64)(t.val >> 64));
  t.hash = h;
  size_t m = table.size() - 1;
  size_t i = h & m;
  while (table[i]) {
    Expr* e = table[i];
    if (e->hash == h && e->op == t.op && e->aux == t.aux && e->width == t.width && e->lo == t.lo &&
        e->k[0] == t.k[0] && e->k[1] == t.k[1] && e->k[2] == t.k[2] && e->val == t.val)
      return e;
    i = (i + 1) & m;
  }
  t.id = (u32)arena.size();
  arena.push_back(t);
  Expr* e = &arena.back();
  computeBounds(*e, e->minv, e->maxv);
  table[i] = e;
  if (++tableN * 2 > table.size()) {
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (Expr* x : table)
      if (x) {
        size_t j = x->hash & nm;
        while (nt[j]) j = (j + 1) & nm;
        nt[j] = x;
      }
    table.swap(nt);
  }
  return e;
}

static E raw(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u32 lo = 0, u128 val = 0, u8 aux = 0) {
  Expr t;
  t.op = op; t.aux = aux; t.width = (uint16_t)w; t.lo = lo; t.val = val;
  t.k[0] = a; t.k[1] = b; t.k[2] = c;
  return intern(t);
}

E mkConst(u128 v, unsigned w) { return raw(E_CONST, w, nullptr, nullptr, nullptr, 0, v & maskOf(w)); }

E mkSym(u32 pathIdx, unsigned w, const char* name, u128 maxv) {
  // Symbols are identified by (creation index on the path, width, bound); sibling paths share them.
  static std::map<std::tuple<u32, unsigned, u64, std::string>, u32> idx;
  auto key = std::make_tuple(pathIdx, w, (u64)maxv, std::string(name));
  auto it = idx.find(key);
  u32 id;
  if (it == idx.end()) {
    id = (u32)g_syms.size();
    idx[key] = id;
    g_syms.push_back({name, w, nullptr, pathIdx});
    g_syms[id].expr = raw(E_SYM, w, nullptr, nullptr, nullptr, id, maxv & maskOf(w));
  } else {
    id = it->second;
  }
  return g_syms[id].expr;
}

// ---------------------------------------------------------------- folding
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  ok = true;
  u128 m = maskOf(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: {
      s128 x = sextVal(a, w), y = sextVal(b, w);
      if (y == 0) return (x < 0 ? (u128)1 : m) & m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case E_SREM: {
      s128 x = sextVal(a, w), y = sextVal(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: {
      s128 x = sextVal(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextVal(a, w) < sextVal(b, w);
    case E_SLE: return sextVal(a, w) <= sextVal(b, w);
    case E_CONCAT: return 0;  // handled elsewhere
    case E_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case E_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case E_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case E_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case E_FREM: return w == 64 ? fromD(std::fmod(asD(a), asD(b))) : fromF(std::fmod(asF(a), asF(b)));
    case E_FEQ: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case E_FLT: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case E_FLE: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    default: ok = false; return 0;
  }
}

u128 foldFUn(Op op, u128 a, unsigned iw, unsigned w, u8 aux) {
  switch (op) {
    case E_FISNAN: return iw == 64 ? std::isnan(asD(a)) : std::isnan(asF(a));
    case E_FTOSI: {
      double d = iw == 64 ? asD(a) : asF(a);
      if (!(d > -1.7e38 && d < 1.7e38)) return 0;
      return (u128)(s128)d & maskOf(w);
    }
    case E_FTOUI: {
      double d = iw == 64 ? asD(a) : asF(a);
      if (!(d > -1.0 && d < 3.4e38)) return 0;
      return (u128)d & maskOf(w);
    }
    case E_SITOF: return w == 64 ? fromD((double)sextVal(a, iw)) : fromF((float)sextVal(a, iw));
    case E_UITOF: return w == 64 ? fromD((double)a) : fromF((float)a);
    case E_FCVT:
      if (iw == w) return a;
      return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
    case E_FSQRT: return w == 64 ? fromD(std::sqrt(asD(a))) : fromF(std::sqrt(asF(a)));
    case E_FROUND: {
      double d = iw == 64 ? asD(a) : asF(a), r = d;
      switch (aux) {
        case 0: r = std::floor(d); break;
        case 1: r = std::ceil(d); break;
        case 2: r = std::trunc(d); break;
        case 3: r = std::nearbyint(d); break;
        case 4: r = std::round(d); break;
      }
      return w == 64 ? fromD(r) : fromF((float)r);
    }
    default: return 0;
  }
}

// ---------------------------------------------------------------- constructors
static bool isCmp(Op op) { return (op >= E_EQ && op <= E_SLE) || (op >= E_FEQ && op <= E_FLE); }
static bool commut(Op op) {
  return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_FEQ ||
         op == E_FADD || op == E_FMUL;
}
static bool isNot(E e, E* x) {
  if (e->op == E_XOR && isC(e->k[1]) && e->k[1]->val == maskOf(e->width)) { *x = e->k[0]; return true; }
  return false;
}

E mkNot(E a) { return mkBin(E_XOR, a, mkConst(maskOf(a->width), a->width)); }

E mkZext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  return raw(E_ZEXT, w, a);
}
E mkSext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst((u128)sextVal(a->val, a->width), w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (a->maxv < ((u128)1 << (a->width - 1))) return mkZext(a, w);
  return raw(E_SEXT, w, a);
}

E mkExtract(E a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == a->width) return a;
  switch (a->op) {
    case E_CONST: return mkConst(a->val >> lo, w);
    case E_EXTRACT: return mkExtract(a->k[0], hi + a->lo, lo + a->lo);
    case E_CONCAT: {
      unsigned bw = a->k[1]->width;
      if (hi < bw) return mkExtract(a->k[1], hi, lo);
      if (lo >= bw) return mkExtract(a->k[0], hi - bw, lo - bw);
      return mkConcat(mkExtract(a->k[0], hi - bw, 0), mkExtract(a->k[1], bw - 1, lo));
    }
    case E_ZEXT: {
      unsigned kw = a->k[0]->width;
      if (lo >= kw) return mkConst(0, w);
      if (hi < kw) return mkExtract(a->k[0], hi, lo);
      return mkZext(mkExtract(a->k[0], kw - 1, lo), w);
    }
    case E_SEXT: {
      unsigned kw = a->k[0]->width;
      if (hi < kw) return mkExtract(a->k[0], hi, lo);
      if (lo < kw) return mkSext(mkExtract(a->k[0], kw - 1, lo), w);
      return mkSext(mkExtract(a->k[0], kw - 1, kw - 1), w);
    }
    case E_ITE:
      if (isC(a->k[1]) || isC(a->k[2]))
        return mkIte(a->k[0], mkExtract(a->k[1], hi, lo), mkExtract(a->k[2], hi, lo));
      break;
    case E_AND: case E_OR: case E_XOR:
      return mkBin(a->op, mkExtract(a->k[0], hi, lo), mkExtract(a->k[1], hi, lo));
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], hi, 0), mkExtract(a->k[1], hi, 0));
      break;
    default: break;
  }
  if (a->width <= 127 && (a->maxv >> lo) == 0) return mkConst(0, w);
  return raw(E_EXTRACT, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  if (hi->op == E_EXTRACT) {
    if (lo->op == E_EXTRACT && lo->k[0] == hi->k[0] && lo->lo + lo->width == hi->lo)
      return mkExtract(hi->k[0], hi->lo + hi->width - 1, lo->lo);
    if (lo->op == E_CONCAT) {
      E l0 = lo->k[0];
      if (l0->op == E_EXTRACT && l0->k[0] == hi->k[0] && l0->lo + l0->width == hi->lo)
        return mkConcat(mkExtract(hi->k[0], hi->lo + hi->width - 1, l0->lo), lo->k[1]);
    }
    // extract(x, w-1, n) : x[n-1:0] given as extract covered above; x itself narrower cannot occur.
  }
  if (isC(hi) && lo->op == E_CONCAT && isC(lo->k[0]))
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  return raw(E_CONCAT, w, hi, lo);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  E x;
  if (isNot(c, &x)) return mkIte(x, b, a);
  if (a->width == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return raw(E_ITE, a->width, c, a, b);
}

// Trailing bits known to be zero.
static unsigned tz(E e) {
  switch (e->op) {
    case E_CONST: {
      if (!e->val) return e->width;
      unsigned n = 0;
      while (!((e->val >> n) & 1)) n++;
      return n;
    }
    case E_CONCAT: { unsigned n = tz(e->k[1]); return n < e->k[1]->width ? n : n + tz(e->k[0]); }
    case E_ZEXT: { unsigned n = tz(e->k[0]); return n < e->k[0]->width ? n : e->width; }
    case E_MUL: return std::min<unsigned>(e->width, tz(e->k[0]) + tz(e->k[1]));
    case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(tz(e->k[0]), tz(e->k[1]));
    case E_AND: return std::max(tz(e->k[0]), tz(e->k[1]));
    case E_ITE: return std::min(tz(e->k[1]), tz(e->k[2]));
    default: return 0;
  }
}

// Builds a concat view when the low `n` bits of `a` are zero and b < 2^n.
static E disjointOr(E a, E b) {
  unsigned n = tz(a);
  if (n == 0 || n >= a->width) return nullptr;
  if ((b->maxv >> n) != 0) return nullptr;
  return mkConcat(mkExtract(a, a->width - 1, n), mkExtract(b, n - 1, 0));
}

// e == x ^ (x >> s) with s > 0: a bijection of x. Returns s, or 0.
static unsigned xorShift(E e, E* x) {
  for (int i = 0; i < 2; i++) {
    E u = e->k[i], v = e->k[1 - i];
    if (v->op != E_ZEXT || v->k[0]->op != E_EXTRACT || v->k[0]->k[0] != u) continue;
    const unsigned s = v->k[0]->lo;
    if (s && s + v->k[0]->width == e->width) { *x = u; return s; }
  }
  return 0;
}

// A double that is exactly an integer (or the absolute value of one): that integer, as 64 bits.
static bool fpInt(E e, E* out) {
  if (e->width != 64) return false;
  if (e->op == E_AND && isC(e->k[1]) && e->k[1]->val == maskOf(63)) {
    E i;
    if (!fpInt(e->k[0], &i)) return false;
    E neg = mkBin(E_SLT, i, mkConst(0, 64));
    *out = mkIte(neg, mkBin(E_SUB, mkConst(0, 64), i), i);
    return true;
  }
  if (e->op == E_SITOF) {
    E i = e->k[0];
    unsigned sig = i->op == E_SEXT || i->op == E_ZEXT ? i->k[0]->width + 1 : i->width;
    if (i->width > 64 || (sig > 53 && i->maxv > ((u128)1 << 53))) return false;
    *out = mkSext(i, 64);
    return true;
  }
  if (e->op == E_UITOF) {
    E i = e->k[0];
    if (i->width > 64 || i->maxv > ((u128)1 << 53)) return false;
    *out = mkZext(i, 64);
    return true;
  }
  return false;
}
static E fpIntCompare(Op op, E a, E b) {   // nullptr: no integers
  if (a->width != 64) return nullptr;
  E x, y;
  if (!isC(a) && !isC(b)) {
    if (!fpInt(a, &x) || !fpInt(b, &y)) return nullptr;
    return op == E_FEQ ? mkEq(x, y) : mkBin(op == E_FLT ? E_SLT : E_SLE, x, y);
  }
  E v = isC(a) ? b : a;
  if (!fpInt(v, &x)) return nullptr;
  double d = asD(isC(a) ? a->val : b->val);
  if (std::isnan(d)) return mkFalse();
  if (d > 0x1p60) d = 0x1p60;
  if (d < -0x1p60) d = -0x1p60;
  auto k = [](double t) { return mkConst((u128)(s128)(s64)t, 64); };
  if (op == E_FEQ) return std::floor(d) == d ? mkEq(x, k(d)) : mkFalse();
  if (isC(b)) return op == E_FLT ? mkBin(E_SLT, x, k(std::ceil(d))) : mkBin(E_SLE, x, k(std::floor(d)));
  return op == E_FLT ? mkBin(E_SLT, k(std::floor(d)), x) : mkBin(E_SLE, k(std::ceil(d)), x);
}

// x + c1 < y + c2 and the like, where nothing overflows: compares x and y
static bool stripConst(E e, E& x, u128& c) {
  if (e->op == E_ADD && isC(e->k[1]) && e->width <= 64 && e->k[0]->maxv + e->k[1]->val <= maskOf(e->width)) { x = e->k[0]; c = e->k[1]->val; return true; }
  x = e; c = 0;
  return false;
}
static E linearCompare(Op op, E a, E b) {
  unsigned w = a->width;
  if (w > 64 || w < 16) return nullptr;
  if (isC(b) && a->op == E_SUB && isC(a->k[0]) && a->k[1]->maxv <= a->k[0]->val) {   // c - x < k
    u128 c = a->k[0]->val, k = b->val + (op == E_ULE);
    if (k > c) return mkTrue();
    return mkBin(E_ULT, mkConst(c - k, w), a->k[1]);
  }
  if (isC(a) && b->op == E_SUB && isC(b->k[0]) && b->k[1]->maxv <= b->k[0]->val) {   // k < c - x
    u128 c = b->k[0]->val, k = a->val;
    if (op == E_ULE) { if (k > c) return mkFalse(); return mkBin(E_ULE, b->k[1], mkConst(c - k, w)); }
    if (k >= c) return mkFalse();
    return mkBin(E_ULT, b->k[1], mkConst(c - k, w));
  }
  E x, y;
  u128 c, d;
  bool sa = stripConst(a, x, c), sb = stripConst(b, y, d);
  if (!sa && !sb) return nullptr;
  if (x == y) return (op == E_ULT ? c < d : c <= d) ? mkTrue() : mkFalse();
  if (isC(b)) {
    if (b->val < c) return mkFalse();
    return mkBin(op, x, mkConst(b->val - c, w));
  }
  if (isC(a)) {
    if (a->val < d) return mkTrue();
    return mkBin(op, mkConst(a->val - d, w), y);
  }
  if (!c || !d) return nullptr;
  u128 k = std::min(c, d);
  return mkBin(op, c > k ? mkBin(E_ADD, x, mkConst(c - k, w)) : x, d > k ? mkBin(E_ADD, y, mkConst(d - k, w)) : y);
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  unsigned rw = isCmp(op) ? 1 : w;
  if (op == E_CONCAT) return mkConcat(a, b);
  if (isC(a) && isC(b)) {
    bool ok;
    u128 v = foldBin(op, a->val, b->val, w, ok);
    if (ok) return mkConst(v, rw);
  }
  if (commut(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u128 m = maskOf(w);
  E x;
  switch (op) {
    case E_FEQ: case E_FLT: case E_FLE:
      if (E r = fpIntCompare(op, a, b)) return r;
      break;
    case E_ADD:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
        if (a->op == E_SUB && isC(a->k[0])) return mkBin(E_SUB, mkConst(a->k[0]->val + b->val, w), a->k[1]);
        if (w > 1 && a->op == E_XOR && isC(a->k[1]) && a->k[1]->val == m) return mkBin(E_SUB, mkConst(b->val - 1, w), a->k[0]);
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->val + b->val, w), mkConst(a->k[2]->val + b->val, w));
      } else {
        if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
        if (b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
        if (b->op == E_SUB && b->k[1] == a) return b->k[0];
        if (a->op == E_SUB && a->k[1] == b) return a->k[0];
      }
      if (w == 1) return mkBin(E_XOR, a, b);
      break;
    case E_SUB:
      if (isC(b)) return mkBin(E_ADD, a, mkConst(-b->val, w));
      // c - (c2 - x) and c - (x ^ ones) are sums
      if (isC(a) && b->op == E_SUB && isC(b->k[0])) return mkBin(E_ADD, b->k[1], mkConst(a->val - b->k[0]->val, w));
      if (isC(a) && w > 1 && b->op == E_XOR && isC(b->k[1]) && b->k[1]->val == m) return mkBin(E_ADD, b->k[0], mkConst(a->val + 1, w));
      if (a == b) return mkConst(0, w);
      if (a->op == E_ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (isC(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
      }
      if (b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkConst(-b->k[1]->val, w));
      if (w == 1) return mkBin(E_XOR, a, b);
      break;
    case E_MUL:
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = 0;
          while (!((b->val >> s) & 1)) s++;
          return mkBin(E_SHL, a, mkConst(s, w));
        }
        if (a->op == E_MUL && isC(a->k[1])) return mkBin(E_MUL, a->k[0], mkConst(a->k[1]->val * b->val, w));
      }
      break;
    case E_UDIV:
      if (isC(b) && b->val) {
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = 0;
          while (!((b->val >> s) & 1)) s++;
          return mkBin(E_LSHR, a, mkConst(s, w));
        }
        if (a->minv / b->val == a->maxv / b->val) return mkConst(a->minv / b->val, w);
        if (a->op == E_ZEXT && b->val <= maskOf(a->k[0]->width))
          return mkZext(mkBin(E_UDIV, a->k[0], mkConst(b->val, a->k[0]->width)), w);
      }
      break;
    case E_UREM:
      if (isC(b) && b->val) {
        if ((b->val & (b->val - 1)) == 0) return mkBin(E_AND, a, mkConst(b->val - 1, w));
        if (a->minv / b->val == a->maxv / b->val) return mkBin(E_SUB, a, mkConst(a->minv / b->val * b->val, w));
        if (a->op == E_ZEXT && b->val <= maskOf(a->k[0]->width))
          return mkZext(mkBin(E_UREM, a->k[0], mkConst(b->val, a->k[0]->width)), w);
      }
      break;
    case E_SDIV:
      if (isC(b) && b->val == 1) return a;
      if (w <= 127 && a->maxv < ((u128)1 << (w - 1)) && b->maxv < ((u128)1 << (w - 1))) return mkBin(E_UDIV, a, b);
      break;
    case E_SREM:
      if (w <= 127 && a->maxv < ((u128)1 << (w - 1)) && b->maxv < ((u128)1 << (w - 1))) return mkBin(E_UREM, a, b);
      break;
    case E_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
        if (a->op == E_ZEXT) {
          unsigned kw = a->k[0]->width;
          return mkZext(mkBin(E_AND, a->k[0], mkConst(b->val, kw)), w);
        }
        if (a->op == E_CONCAT) {
          unsigned lw = a->k[1]->width;
          return mkConcat(mkBin(E_AND, a->k[0], mkConst(b->val >> lw, w - lw)),
                          mkBin(E_AND, a->k[1], mkConst(b->val, lw)));
        }
        // contiguous mask
        unsigned lo = 0;
        while (!((b->val >> lo) & 1)) lo++;
        u128 s = b->val >> lo;
        if ((s & (s + 1)) == 0) {
          unsigned n = 0;
          while ((s >> n) & 1) n++;
          E mid = mkExtract(a, lo + n - 1, lo);
          if (lo) mid = mkConcat(mid, mkConst(0, lo));
          return mkZext(mid, w);
        }
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->val & b->val, w), mkConst(a->k[2]->val & b->val, w));
      }
      if (isNot(a, &x) && x == b) return mkConst(0, w);
      if (isNot(b, &x) && x == a) return mkConst(0, w);
      if (w == 1) {
        if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return a;
        if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return b;
        if (mkNot(a) == b) return mkConst(0, 1);
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->width == b->k[0]->width)
        return mkZext(mkBin(E_AND, a->k[0], b->k[0]), w);
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
        if (a->op == E_OR && isC(a->k[1])) return mkBin(E_OR, a->k[0], mkConst(a->k[1]->val | b->val, w));
        if (a->op == E_CONCAT) {
          unsigned lw = a->k[1]->width;
          return mkConcat(mkBin(E_OR, a->k[0], mkConst(b->val >> lw, w - lw)),
                          mkBin(E_OR, a->k[1], mkConst(b->val, lw)));
        }
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->val | b->val, w), mkConst(a->k[2]->val | b->val, w));
      }
      if (isNot(a, &x) && x == b) return mkConst(m, w);
      if (isNot(b, &x) && x == a) return mkConst(m, w);
      if (w == 1) {
        if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return a;
        if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return b;
        {
          E na = mkNot(a), nb = mkNot(b);
          if (na == b) return mkConst(1, 1);
          if (b->op == E_AND && b->k[0] == na) return mkBin(E_OR, a, b->k[1]);
          if (b->op == E_AND && b->k[1] == na) return mkBin(E_OR, a, b->k[0]);
          if (a->op == E_AND && a->k[0] == nb) return mkBin(E_OR, b, a->k[1]);
          if (a->op == E_AND && a->k[1] == nb) return mkBin(E_OR, b, a->k[0]);
          if (a->op == E_AND && b->op == E_AND)
            for (int i = 0; i < 2; i++)
              for (int j = 0; j < 2; j++)
                if (a->k[i] == b->k[j] && mkNot(a->k[1 - i]) == b->k[1 - j]) return a->k[i];
        }
      } else {
        if (E r = disjointOr(a, b)) return r;
        if (E r = disjointOr(b, a)) return r;
      }
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->val == 0) return a;
        // 2^k-1 - a
        if (w <= 64 && b->val >= 0xffff && (b->val & (b->val + 1)) == 0 && a->maxv <= b->val && a->op == E_ADD) return mkBin(E_SUB, b, a);
        if (w <= 64 && b->val >= 0xffff && (b->val & (b->val + 1)) == 0 && a->maxv <= b->val && a->op == E_SYM && a->maxv < b->val) return mkBin(E_SUB, b, a);
        if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
        if (w == 1) {
          // not of comparison
          if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
          if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
          if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
          if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
        }
        if (a->op == E_CONCAT) {
          unsigned lw = a->k[1]->width;
          return mkConcat(mkBin(E_XOR, a->k[0], mkConst(b->val >> lw, w - lw)),
                          mkBin(E_XOR, a->k[1], mkConst(b->val, lw)));
        }
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->val ^ b->val, w), mkConst(a->k[2]->val ^ b->val, w));
      }
      break;
    case E_SHL:
      if (isC(b)) {
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        if (!s) return a;
        return mkConcat(mkExtract(a, w - 1 - s, 0), mkConst(0, s));
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case E_LSHR:
      if (isC(b)) {
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        if (!s) return a;
        return mkZext(mkExtract(a, w - 1, s), w);
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case E_ASHR:
      if (isC(b)) {
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        if (!s) return a;
        return mkSext(mkExtract(a, w - 1, s), w);
      }
      break;
    case E_EQ:
      if (a == b) return mkTrue();
      if (isC(b)) {
        u128 c = b->val;
        if (w == 1) return c ? a : mkNot(a);
        if (c > a->maxv || c < a->minv) return mkFalse();
        // the exponent of a finite number is not all ones
        if (a->op == E_EXTRACT && a->width == 11 && a->lo == 52 && c == 0x7ff && (a->k[0]->op == E_SITOF || a->k[0]->op == E_UITOF) && a->k[0]->width == 64) return mkFalse();
        switch (a->op) {
          case E_ZEXT: return mkEq(a->k[0], mkConst(c, a->k[0]->width));
          case E_SEXT: {
            unsigned kw = a->k[0]->width;
            if (((u128)sextVal(c, kw) & m) != c) return mkFalse();
            return mkEq(a->k[0], mkConst(c, kw));
          }
          case E_CONCAT: {
            unsigned lw = a->k[1]->width;
            return mkAnd(mkEq(a->k[0], mkConst(c >> lw, w - lw)), mkEq(a->k[1], mkConst(c, lw)));
          }
          case E_ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(c - a->k[1]->val, w)); break;
          case E_SUB:
            if (c == 0) return mkEq(a->k[0], a->k[1]);
            if (isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->val - c, w));
            break;
          case E_XOR:
            if (isC(a->k[1])) return mkEq(a->k[0], mkConst(c ^ a->k[1]->val, w));
            if (c == 0) return mkEq(a->k[0], a->k[1]);
            break;
          case E_AND: case E_OR:
            if (a->op == E_OR && c == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
            break;
          case E_ITE:
            if (isC(a->k[1]) || isC(a->k[2]))
              return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
            break;
          default: break;
        }
      } else {
        if (a->maxv < b->minv || b->maxv < a->minv) return mkFalse();
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->width == b->k[1]->width)
          return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        if (a->op == E_ADD && (a->k[0] == b || a->k[1] == b))
          return mkEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, w));
        if (b->op == E_ADD && (b->k[0] == a || b->k[1] == a))
          return mkEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, w));
        if (a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
        if (a->op == b->op) {   // applications of one injective function
          if (a->op == E_ADD || a->op == E_XOR)
            for (int i = 0; i < 2; i++)
              for (int j = 0; j < 2; j++)
                if (a->k[i] == b->k[j]) return mkEq(a->k[1 - i], b->k[1 - j]);
          if (a->op == E_MUL && isC(a->k[1]) && a->k[1] == b->k[1] && (a->k[1]->val & 1)) return mkEq(a->k[0], b->k[0]);
          if (a->op == E_XOR) {
            E u, v;
            unsigned su = xorShift(a, &u), sv = xorShift(b, &v);
            if (su && su == sv) return mkEq(u, v);
          }
        }
        if (w == 1 && isNot(a, &x)) { if (x == b) return mkFalse(); }
        if (w == 1 && isNot(b, &x)) { if (x == a) return mkFalse(); }
      }
      break;
    case E_ULT:
      if (a == b) return mkFalse();
      if (E r = linearCompare(op, a, b)) return r;
      if (a->maxv < b->minv) return mkTrue();
      if (a->minv >= b->maxv) return mkFalse();
      if (isC(b)) {
        if (b->val == 0) return mkFalse();
        if (a->maxv < b->val) return mkTrue();
        if (b->val == 1) return mkEq(a, mkConst(0, w));
        if (a->op == E_ZEXT) {
          unsigned kw = a->k[0]->width;
          if (b->val > maskOf(kw)) return mkTrue();
          return mkBin(E_ULT, a->k[0], mkConst(b->val, kw));
        }
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkBin(E_ULT, a->k[1], b), mkBin(E_ULT, a->k[2], b));
      }
      if (isC(a)) {
        if (a->val >= b->maxv) return mkFalse();
        if (a->val == 0) return mkNot(mkEq(b, a));
        if (b->op == E_ZEXT) {
          unsigned kw = b->k[0]->width;
          if (a->val >= maskOf(kw)) return mkFalse();
          return mkBin(E_ULT, mkConst(a->val, kw), b->k[0]);
        }
        if (b->op == E_ITE && isC(b->k[1]) && isC(b->k[2]))
          return mkIte(b->k[0], mkBin(E_ULT, a, b->k[1]), mkBin(E_ULT, a, b->k[2]));
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->width == b->k[0]->width)
        return mkBin(E_ULT, a->k[0], b->k[0]);
      break;
    case E_ULE:
      if (a == b) return mkTrue();
      if (E r = linearCompare(op, a, b)) return r;
      if (a->maxv <= b->minv) return mkTrue();
      if (a->minv > b->maxv) return mkFalse();
      if (isC(b)) {
        if (a->maxv <= b->val) return mkTrue();
        return mkBin(E_ULT, a, mkConst(b->val + 1, w));
      }
      if (isC(a)) {
        if (a->val == 0) return mkTrue();
        if (a->val > b->maxv) return mkFalse();
        return mkBin(E_ULT, mkConst(a->val - 1, w), b);
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->width == b->k[0]->width)
        return mkBin(E_ULE, a->k[0], b->k[0]);
      break;
    case E_SLT: case E_SLE: {
      if (a == b) return op == E_SLE ? mkTrue() : mkFalse();
      if (w > 120) break;
      u128 half = (u128)1 << (w - 1);
      bool pa = a->maxv < half, pb = b->maxv < half;
      bool na = a->minv >= half, nb = b->minv >= half;
      if (na && nb) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (na && pb) return mkTrue();
      if (pa && nb) return mkFalse();
      if (pa && pb) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (isC(b) && b->val >= half && pa) return mkFalse();
      if (isC(a) && a->val >= half && pb) return mkTrue();
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->width == b->k[0]->width)
        return mkBin(op, a->k[0], b->k[0]);
      if (a->op == E_SEXT && isC(b)) {
        unsigned kw = a->k[0]->width;
        s128 c = sextVal(b->val, w);
        s128 lo = -((s128)1 << (kw - 1)), hi = ((s128)1 << (kw - 1)) - 1;
        if (c > hi) return mkTrue();
        if (c < lo) return mkFalse();
        return mkBin(op, a->k[0], mkConst((u128)c, kw));
      }
      if (b->op == E_SEXT && isC(a)) {
        unsigned kw = b->k[0]->width;
        s128 c = sextVal(a->val, w);
        s128 lo = -((s128)1 << (kw - 1)), hi = ((s128)1 << (kw - 1)) - 1;
        if (c > hi) return mkFalse();
        if (c < lo) return mkTrue();
        return mkBin(op, mkConst((u128)c, kw), b->k[0]);
      }
      if (op == E_SLT && isC(b) && b->val == 0) return mkExtract(a, w - 1, w - 1);
      if (op == E_SLE && isC(a) && a->val == 0) return mkNot(mkExtract(b, w - 1, w - 1));
      break;
    }
    default: break;
  }
  return raw(op, rw, a, b);
}

E mkFUn(Op op, E a, unsigned w, u8 aux) {
  if (isC(a)) return mkConst(foldFUn(op, a->val, a->width, w, aux), w);
  if (op == E_FCVT && a->width == w) return a;
  if (op == E_FISNAN) {
    E t = a->op == E_AND && isC(a->k[1]) && a->k[1]->val == maskOf(a->width - 1) ? a->k[0] : a;
    if (t->op == E_SITOF || t->op == E_UITOF) return mkFalse();
  }
  if (op == E_FTOSI && w <= 64) {
    E i;
    if (fpInt(a, &i) && a->op != E_AND) {
      unsigned sig = a->k[0]->op == E_SEXT ? a->k[0]->k[0]->width : a->k[0]->op == E_ZEXT ? a->k[0]->k[0]->width + 1 : a->op == E_SITOF ? a->k[0]->width : 65;
      if (sig <= w) return mkExtract(i, w - 1, 0);
    }
  }
  return raw(op, w, a, nullptr, nullptr, 0, 0, aux);
}

// ---------------------------------------------------------------- traversal
const std::vector<u32>& symsOf(E e) {
  if (e->syms) return *e->syms;
  static std::vector<u32> empty;
  if (e->op == E_CONST) { e->syms = &empty; return empty; }
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++)
      if (x->k[i] && !x->k[i]->syms) {
        if (x->k[i]->op == E_CONST) x->k[i]->syms = &empty;
        else { st.push_back(x->k[i]); ready = false; }
      }
    if (!ready) continue;
    st.pop_back();
    if (x->op == E_SYM) { x->syms = new std::vector<u32>{x->lo}; continue; }
    if (x->op == E_CONST) { x->syms = &empty; continue; }
    std::vector<u32>* big = nullptr;
    for (int i = 0; i < 3; i++)
      if (x->k[i] && (!big || x->k[i]->syms->size() > big->size())) big = x->k[i]->syms;
    bool sub = true;
    for (int i = 0; i < 3 && sub; i++)
      if (x->k[i] && x->k[i]->syms != big)
        sub = std::includes(big->begin(), big->end(), x->k[i]->syms->begin(), x->k[i]->syms->end());
    if (sub) { x->syms = big; continue; }
    auto* r = new std::vector<u32>(*big);
    for (int i = 0; i < 3; i++)
      if (x->k[i] && x->k[i]->syms != big) {
        std::vector<u32> t;
        std::set_union(r->begin(), r->end(), x->k[i]->syms->begin(), x->k[i]->syms->end(), std::back_inserter(t));
        r->swap(t);
      }
    x->syms = r;
  }
  return *e->syms;
}

static u128 evalNode(E x) {
  auto V = [&](int i) { return x->k[i]->op == E_CONST ? x->k[i]->val : x->k[i]->evalVal; };
  switch (x->op) {
    case E_ITE: return V(0) ? V(1) : V(2);
    case E_ZEXT: return V(0);
    case E_SEXT: return (u128)sextVal(V(0), x->k[0]->width) & maskOf(x->width);
    case E_EXTRACT: return (V(0) >> x->lo) & maskOf(x->width);
    case E_CONCAT: return (V(0) << x->k[1]->width) | V(1);
    case E_FISNAN: case E_FTOSI: case E_FTOUI: case E_SITOF: case E_UITOF: case E_FCVT: case E_FROUND: case E_FSQRT:
      return foldFUn(x->op, V(0), x->k[0]->width, x->width, x->aux);
    default: {
      bool ok;
      return foldBin(x->op, V(0), V(1), x->k[0]->width, ok);
    }
  }
}

u128 evalExpr(E e, const Model& m) {
  if (e->op == E_CONST) return e->val;
  u64 stamp = m.stamp;
  if (e->evalStamp == stamp) return e->evalVal;
  static std::vector<E> st;
  size_t base = st.size();
  st.push_back(e);
  while (st.size() > base) {
    E x = st.back();
    if (x->evalStamp == stamp || x->op == E_CONST) { st.pop_back(); continue; }
    if (x->op == E_SYM) {
      x->evalVal = m.get(x->lo) & maskOf(x->width);
      x->evalStamp = stamp;
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (int i = 0; i < 3; i++)
      if (x->k[i] && x->k[i]->op != E_CONST && x->k[i]->evalStamp != stamp) {
        st.push_back(x->k[i]);
        ready = false;
      }
    if (!ready) continue;
    x->evalVal = evalNode(x);
    x->evalStamp = stamp;
    st.pop_back();
  }
  return e->evalVal;
}

static const char* opn[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", "lshr",
  "ashr", "==", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "extract", "concat", "f+", "f-", "f*", "f/", "frem",
  "f==", "f<", "f<=", "isnan", "ftosi", "ftoui", "sitof", "uitof", "fcvt", "fround", "fsqrt"};

std::string exprStr(E e, int depth) {
  char buf[64];
  if (e->op == E_CONST) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->val); return buf; }
  if (e->op == E_SYM) { return g_syms[e->lo].name + "#" + std::to_string(e->lo); }
  if (depth == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == E_EXTRACT) { snprintf(buf, sizeof buf, "[%u:%u]", e->lo + e->width - 1, e->lo); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
