// Library functions and intrinsics the engine understands directly.
#include "exec.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <unordered_map>

#define BI(name) static BRes name(Exec& X, CallInfo& ci, std::vector<Val>& a, std::vector<Val>& r)
#define UNUSED (void)X, (void)ci, (void)a, (void)r
typedef std::vector<Val> VV;
static Val cv(u64 x) { Val v; v.c = x; return v; }
static E sy(Exec& X, const Val& v, unsigned w) { return X.toE(v, w); }

// ---------------------------------------------------------------- memory
static void doCopy(Exec& X, const Val& d, const Val& s, const Val& n, const char* what) {
  u64 len = X.concretize(n, "copy length");
  if (!len) return;
  Exec::Loc ls = X.locate(s, len, false, what);
  u32 so = ls.offE ? (u32)X.concretize(Exec::fromE(ls.offE), "offset") : ls.off;
  Exec::Loc ld = X.locate(d, len, true, what);
  u32 dof = ld.offE ? (u32)X.concretize(Exec::fromE(ld.offE), "offset") : ld.off;
  X.copyBytes(ld.id, dof, ls.id, so, (u32)len);
}
BI(b_memcpy) {
  UNUSED;
  u64 len = X.concretize(a[2], "copy length");
  if (len && !a[0].e && !a[1].e && ci.name != "memmove" && ci.name != "llvm.memmove") {
    u64 d = a[0].c, s = a[1].c;
    if ((d >> 32) == (s >> 32) && d != s && d < s + len && s < d + len) X.violation("undefined-behaviour", "memcpy with overlapping ranges in " + X.where());
  }
  doCopy(X, a[0], a[1], a[2], "memcpy");
  if (!r.empty()) r[0] = a[0];
  return B_DONE;
}
BI(b_memset) {
  UNUSED;
  u64 len = X.concretize(a[2], "memset length");
  if (!r.empty()) r[0] = a[0];
  if (!len) return B_DONE;
  Val b = a[1];
  if (ci.argW[1] > 8) b = b.e ? Exec::fromE(mkExtract(b.e, 7, 0)) : cv(b.c & 255);
  Exec::Loc l = X.locate(a[0], len, true, "memset");
  u32 o = l.offE ? (u32)X.concretize(Exec::fromE(l.offE), "offset") : l.off;
  if (X.S->raceOn && X.S->th.size() > 1) X.raceAccess(l.id, o, (u32)len, true, false);
  for (u64 i = 0; i < len; i++) X.storeAt(l.id, o + (u32)i, b, 8);
  return B_DONE;
}
static Val ldByte(Exec& X, u64 addr) { return X.load(cv(addr), 8); }
BI(b_memcmp) {
  UNUSED;
  u64 n = X.concretize(a[2], "memcmp length");
  u64 p = X.concretize(a[0], "pointer"), q = X.concretize(a[1], "pointer");
  bool eqOnly = ci.name == "bcmp";
  if (n) { X.locate(cv(p), n, false, "memcmp"); X.locate(cv(q), n, false, "memcmp"); }
  E res = mkConst(0, 32);
  std::vector<std::pair<E, E>> bs;
  for (u64 i = 0; i < n; i++) {
    E x = sy(X, ldByte(X, p + i), 8), y = sy(X, ldByte(X, q + i), 8);
    if (x == y) continue;
    bs.push_back({x, y});
    if (isC(x) && isC(y)) break;  // decided here at the latest
  }
  for (size_t i = bs.size(); i-- > 0;) {
    E x = bs[i].first, y = bs[i].second;
    E d = eqOnly ? mkConst(1, 32) : mkIte(mkBin(E_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32));
    res = mkIte(mkEq(x, y), res, d);
  }
  r[0] = Exec::fromE(res);
  return B_DONE;
}
BI(b_strlen) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer");
  for (u64 i = 0;; i++) {
    Val b = ldByte(X, p + i);
    if (X.decide(mkEq(sy(X, b, 8), mkConst(0, 8)))) { r[0] = cv(i); return B_DONE; }
  }
}
BI(b_strnlen) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), n = X.concretize(a[1], "length");
  u64 i = 0;
  for (; i < n; i++) if (X.decide(mkEq(sy(X, ldByte(X, p + i), 8), mkConst(0, 8)))) break;
  r[0] = cv(i);
  return B_DONE;
}
BI(b_memchr) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), n = X.concretize(a[2], "length");
  E c = mkExtract(sy(X, a[1], ci.argW[1]), 7, 0);
  for (u64 i = 0; i < n; i++)
    if (X.decide(mkEq(sy(X, ldByte(X, p + i), 8), c))) { r[0] = cv(p + i); return B_DONE; }
  r[0] = cv(0);
  return B_DONE;
}
BI(b_memrchr) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), n = X.concretize(a[2], "length");
  E c = mkExtract(sy(X, a[1], ci.argW[1]), 7, 0);
  for (u64 i = n; i-- > 0;)
    if (X.decide(mkEq(sy(X, ldByte(X, p + i), 8), c))) { r[0] = cv(p + i); return B_DONE; }
  r[0] = cv(0);
  return B_DONE;
}
BI(b_strchr) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer");
  bool rev = ci.name == "strrchr";
  E c = mkExtract(sy(X, a[1], ci.argW[1]), 7, 0);
  u64 best = 0;
  for (u64 i = 0;; i++) {
    E b = sy(X, ldByte(X, p + i), 8);
    if (X.decide(mkEq(b, c))) { best = p + i; if (!rev) break; }
    if (X.decide(mkEq(b, mkConst(0, 8)))) break;
  }
  r[0] = cv(best);
  return B_DONE;
}
BI(b_strcmp) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), q = X.concretize(a[1], "pointer");
  u64 n = a.size() > 2 ? X.concretize(a[2], "length") : ~0ull;
  if (p == q) { r[0] = cv(0); return B_DONE; }
  for (u64 i = 0; i < n; i++) {
    E x = sy(X, ldByte(X, p + i), 8), y = sy(X, ldByte(X, q + i), 8);
    if (!X.decide(mkEq(x, y))) { r[0] = Exec::fromE(mkIte(mkBin(E_ULT, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); return B_DONE; }
    if (X.decide(mkEq(x, mkConst(0, 8)))) break;
  }
  r[0] = cv(0);
  return B_DONE;
}
BI(b_strcpy) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), q = X.concretize(a[1], "pointer");
  VV bytes;
  for (u64 i = 0;; i++) {
    Val b = ldByte(X, q + i);
    bytes.push_back(b);
    if (X.decide(mkEq(sy(X, b, 8), mkConst(0, 8)))) break;
  }
  for (size_t i = 0; i < bytes.size(); i++) X.store(cv(p + i), bytes[i], 8);
  r[0] = a[0];
  return B_DONE;
}

static Val heapNew(Exec& X, const Val& sz, u8 kind) {
  u64 n = X.concretize(sz, "allocation size");
  if (n > (1ull << 40)) X.trapped("allocation of an absurd size (bad_alloc)", false);
  u32 id = X.alloc(n, kind, "heap block");
  X.S->heapLive++;
  return cv((u64)id << 32);
}
static void heapDel(Exec& X, const Val& pv, u8 kind) {
  u64 p = X.concretize(pv, "pointer");
  if (!p) return;
  u32 id = (u32)(p >> 32);
  Obj* o = X.S->mem.get(id);
  if (!o) X.violation("bad-free", "free of an invalid pointer in " + X.where());
  if (o->kind == OK_FREED) X.violation("double-free", "block freed twice in " + X.where());
  if (o->kind != OK_HEAP_NEW && o->kind != OK_HEAP_NEWA && o->kind != OK_HEAP_MALLOC) X.violation("bad-free", std::string("free of memory not from the heap ('") + o->name + "') in " + X.where());
  if ((u32)p) X.violation("bad-free", "free of an interior pointer in " + X.where());
  if (o->kind != kind) X.violation("mismatched-free", "allocation and deallocation functions do not match in " + X.where());
  X.freeObj(id, 0);
  X.S->heapLive--;
}
BI(b_new) { UNUSED; r[0] = heapNew(X, a[0], OK_HEAP_NEW); return B_DONE; }
BI(b_newa) { UNUSED; r[0] = heapNew(X, a[0], OK_HEAP_NEWA); return B_DONE; }
BI(b_malloc) { UNUSED; r[0] = heapNew(X, a[0], OK_HEAP_MALLOC); return B_DONE; }
BI(b_calloc) {
  UNUSED;
  u64 n = X.concretize(a[0], "size") * X.concretize(a[1], "size");
  r[0] = heapNew(X, cv(n), OK_HEAP_MALLOC);
  for (u64 i = 0; i < n; i++) X.storeAt((u32)(r[0].c >> 32), (u32)i, cv(0), 8);
  return B_DONE;
}
BI(b_delete) { UNUSED; heapDel(X, a[0], OK_HEAP_NEW); return B_DONE; }
BI(b_deletea) { UNUSED; heapDel(X, a[0], OK_HEAP_NEWA); return B_DONE; }
BI(b_free) { UNUSED; heapDel(X, a[0], OK_HEAP_MALLOC); return B_DONE; }

// ---------------------------------------------------------------- intrinsics
BI(b_ovf) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), y = sy(X, a[1], w);
  bool sg = ci.name[5] == 's';
  std::string op = ci.name.substr(6, 3);
  E v, o;
  if (op == "add") {
    v = mkBin(E_ADD, x, y);
    if (sg) { E s = mkBin(E_AND, mkNot(mkBin(E_XOR, x, y)), mkBin(E_XOR, x, v)); o = mkExtract(s, w - 1, w - 1); }
    else o = mkBin(E_ULT, v, x);
  } else if (op == "sub") {
    v = mkBin(E_SUB, x, y);
    if (sg) { E s = mkBin(E_AND, mkBin(E_XOR, x, y), mkBin(E_XOR, x, v)); o = mkExtract(s, w - 1, w - 1); }
    else o = mkBin(E_ULT, x, y);
  } else {
    if (w > 64) X.incompletePath("wide overflow multiplication");
    v = mkBin(E_MUL, x, y);
    E p = mkBin(E_MUL, sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w));
    o = mkNot(mkEq(p, sg ? mkSext(v, 2 * w) : mkZext(v, 2 * w)));
  }
  r[0] = Exec::fromE(v);
  r[1] = Exec::fromE(o);
  return B_DONE;
}
BI(b_sat) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), y = sy(X, a[1], w), v;
  E one = mkConst(1, w);
  if (ci.name == "llvm.usub.sat") v = mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y));
  else if (ci.name == "llvm.uadd.sat") { E s = mkBin(E_ADD, x, y); v = mkIte(mkBin(E_ULT, s, x), mkConst(maskOf(w), w), s); }
  else {
    bool add = ci.name == "llvm.sadd.sat";
    E s = mkBin(add ? E_ADD : E_SUB, x, y);
    E t = add ? mkBin(E_AND, mkNot(mkBin(E_XOR, x, y)), mkBin(E_XOR, x, s)) : mkBin(E_AND, mkBin(E_XOR, x, y), mkBin(E_XOR, x, s));
    E o = mkExtract(t, w - 1, w - 1);
    E mn = mkConst((u128)1 << (w - 1), w);
    v = mkIte(o, mkIte(mkEq(mkExtract(x, w - 1, w - 1), mkConst(1, 1)), mn, mkBin(E_SUB, mn, one)), s);
  }
  r[0] = Exec::fromE(v);
  return B_DONE;
}
BI(b_minmax) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), y = sy(X, a[1], w);
  bool sg = ci.name[5] == 's', mx = ci.name[7] == 'a';
  E lt = mkBin(sg ? E_SLT : E_ULT, x, y);
  r[0] = Exec::fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y));
  return B_DONE;
}
BI(b_abs) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w);
  // llvm.abs with the poison flag set is undefined for the minimum
  if (!a[1].e && a[1].c && X.decide(mkEq(x, mkConst((u128)1 << (w - 1), w))))
    X.violation("undefined-behaviour", "absolute value of the smallest integer in " + X.where());
  r[0] = Exec::fromE(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x));
  return B_DONE;
}
BI(b_ctpop) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), s = mkConst(0, w);
  for (unsigned i = 0; i < w; i++) s = mkBin(E_ADD, s, mkZext(mkExtract(x, i, i), w));
  r[0] = Exec::fromE(s);
  return B_DONE;
}
BI(b_ctz) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w);
  bool lead = ci.name == "llvm.ctlz";
  E v = mkConst(w, w);
  for (unsigned i = 0; i < w; i++) {
    unsigned bit = lead ? i : w - 1 - i;
    v = mkIte(mkExtract(x, bit, bit), mkConst(lead ? w - 1 - bit : bit, w), v);
  }
  r[0] = Exec::fromE(v);
  return B_DONE;
}
BI(b_bswap) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), v = nullptr;
  for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8 + 7, i * 8); v = v ? mkConcat(v, b) : b; }
  r[0] = Exec::fromE(v);
  return B_DONE;
}
BI(b_fsh) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), y = sy(X, a[1], w), s = mkBin(E_UREM, sy(X, a[2], w), mkConst(w, w));
  E wd = mkConcat(x, y);
  if (2 * w > 128) X.incompletePath("wide funnel shift");
  E s2 = mkZext(s, 2 * w);
  if (ci.name == "llvm.fshl") r[0] = Exec::fromE(mkExtract(mkBin(E_SHL, wd, s2), 2 * w - 1, w));
  else r[0] = Exec::fromE(mkExtract(mkBin(E_LSHR, wd, s2), w - 1, 0));
  return B_DONE;
}
BI(b_fabs) {
  unsigned w = ci.argW[0];
  if (w == 80) X.incompletePath("long double");
  r[0] = Exec::fromE(mkBin(E_AND, sy(X, a[0], w), mkConst(maskOf(w - 1), w)));
  return B_DONE;
}
BI(b_copysign) {
  unsigned w = ci.argW[0];
  r[0] = Exec::fromE(mkBin(E_OR, mkBin(E_AND, sy(X, a[0], w), mkConst(maskOf(w - 1), w)), mkBin(E_AND, sy(X, a[1], w), mkConst((u128)1 << (w - 1), w))));
  return B_DONE;
}
BI(b_fround) {
  unsigned w = ci.argW[0];
  u8 m = 0;
  const std::string& n = ci.name;
  if (n.find("ceil") != std::string::npos) m = 1;
  else if (n.find("trunc") != std::string::npos) m = 2;
  else if (n.find("rint") != std::string::npos || n.find("nearbyint") != std::string::npos || n.find("roundeven") != std::string::npos) m = 3;
  else if (n.find("round") != std::string::npos) m = 4;
  r[0] = Exec::fromE(mkFUn(E_FROUND, sy(X, a[0], w), w, m));
  return B_DONE;
}
BI(b_fminmax) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w), y = sy(X, a[1], w);
  bool mx = ci.name.find("max") != std::string::npos;
  E lt = mkBin(E_FLT, x, y);
  E v = mx ? mkIte(lt, y, x) : mkIte(lt, x, y);
  v = mkIte(mkFUn(E_FISNAN, x, 1), y, mkIte(mkFUn(E_FISNAN, y, 1), x, v));
  r[0] = Exec::fromE(v);
  return B_DONE;
}
BI(b_sqrt) { r[0] = Exec::fromE(mkFUn(E_FSQRT, sy(X, a[0], ci.argW[0]), ci.argW[0])); return B_DONE; }
BI(b_fclass) {
  unsigned w = ci.argW[0];
  E x = sy(X, a[0], w);
  u64 m = a[1].c;
  unsigned mb = w == 64 ? 52 : 23;
  E exp = mkExtract(x, w - 2, mb), man = mkExtract(x, mb - 1, 0), sg = mkExtract(x, w - 1, w - 1);
  E expAll = mkEq(exp, mkConst(maskOf(exp->width), exp->width)), expZ = mkEq(exp, mkConst(0, exp->width)), manZ = mkEq(man, mkConst(0, mb));
  E qb = mkExtract(man, mb - 1, mb - 1);
  E res = mkFalse();
  auto add = [&](u64 bit, E c) { if (m & bit) res = mkOr(res, c); };
  E nan = mkAnd(expAll, mkNot(manZ)), inf = mkAnd(expAll, manZ), zero = mkAnd(expZ, manZ), sub = mkAnd(expZ, mkNot(manZ)), norm = mkAnd(mkNot(expAll), mkNot(expZ));
  E ps = mkNot(sg);
  if ((m & 504) == 504) { res = mkNot(expAll); m &= ~(u64)504; }
  add(1, mkAnd(nan, mkNot(qb))); add(2, mkAnd(nan, qb)); add(4, mkAnd(inf, sg)); add(8, mkAnd(norm, sg)); add(16, mkAnd(sub, sg));
  add(32, mkAnd(zero, sg)); add(64, mkAnd(zero, ps)); add(128, mkAnd(sub, ps)); add(256, mkAnd(norm, ps)); add(512, mkAnd(inf, ps));
  r[0] = Exec::fromE(res);
  return B_DONE;
}
BI(b_objectsize) { UNUSED; r[0] = cv((u64)maskOf(ci.retW[0])); return B_DONE; }
BI(b_nop) { UNUSED; for (auto& x : r) x = cv(0); return B_DONE; }
BI(b_lifetime) {
  UNUSED;
  u64 p = X.concretize(a[1], "pointer");
  u32 id = (u32)(p >> 32);
  Obj* o = X.S->mem.get(id);
  if (!o || o->kind != OK_STACK || (u32)p) return B_DONE;
  o = X.S->mem.mut(id);
  o->st.assign(o->size, 1);
  o->special = o->size;
  return B_DONE;
}
BI(b_assume) {
  UNUSED;
  E c = sy(X, a[0], 1);
  if (!X.decide(c)) X.violation("undefined-behaviour", "assumption violated in " + X.where());
  return B_DONE;
}
BI(b_trap) { UNUSED; X.trapped("undefined behaviour detected (arithmetic overflow, bad shift, bad cast, index out of bounds or unreachable code) in " + X.where(), true); }
BI(b_tlsaddr) {
  UNUSED;
  u32 idx = (u32)a[0].c;
  auto& t = X.S->th[X.S->cur];
  if (t.tls.size() <= idx) t.tls.resize(idx + 1, 0);
  if (!t.tls[idx]) {
    u32 id = X.S->nextObj++;
    X.S->mem.put(id, makeTlsObj(idx));
    t.tls[idx] = id;
  }
  r[0] = cv((u64)t.tls[idx] << 32);
  return B_DONE;
}
BI(b_stacksave) { UNUSED; r[0] = cv(0); return B_DONE; }

// ---------------------------------------------------------------- aborts
BI(b_abort) { UNUSED; X.trapped("abort() called in " + X.where(), false); }
BI(b_assertfail) {
  UNUSED;
  std::string e;
  try { e = X.cstr(a[0].c); } catch (PathEnd&) { e = "?"; }
  X.trapped("assertion failed: " + e + " in " + X.where(), false);
}
BI(b_throw) { UNUSED; X.trapped("exception thrown (" + ci.name + ") in " + X.where(), false); }
BI(b_purevirtual) { UNUSED; X.trapped("pure virtual function called in " + X.where(), true); }
BI(b_exit) { UNUSED; X.violation("abort", "the program ends by exit() in " + X.where()); }

// ---------------------------------------------------------------- formatted text
static void putStr(VV& o, const std::string& s) { for (char c : s) o.push_back(cv((u8)c)); }
static E digitChar(E nib, bool up) {  // nib: 8 bits, value 0..15
  return mkIte(mkBin(E_ULT, nib, mkConst(10, 8)), mkBin(E_ADD, nib, mkConst('0', 8)), mkBin(E_ADD, nib, mkConst((up ? 'A' : 'a') - 10, 8)));
}
// Text of a floating point value: exact for known values; otherwise a text of unknown printable characters which is
// the same whenever the same value is printed with the same format.
static VV floatText(Exec& X, E e, unsigned w, const std::string& spec) {
  if (isC(e)) {
    char buf[512];
    if (w == 80) { long double ld = 0; u128 b = e->val; memcpy(&ld, &b, 10); snprintf(buf, sizeof buf, spec.c_str(), ld); }
    else { double d; u64 b = (u64)e->val; memcpy(&d, &b, 8); snprintf(buf, sizeof buf, spec.c_str(), d); }
    VV o;
    putStr(o, buf);
    return o;
  }
  int key = 0;
  for (char c : spec) key = key * 131 + (u8)c;
  auto it = X.S->opaque.find({e->id, key});
  if (it != X.S->opaque.end()) return it->second;
  VV o;
  VV& lv = X.S->opaque[{e->id, key ^ 0x40000000}];  // remembered: this code runs again after a fork
  if (lv.empty()) lv.push_back(Exec::fromE(X.freshSym(8, "opaque", 2)));
  E len = lv[0].e;
  size_t n = 2;
  if (X.decide(mkEq(len, mkConst(1, 8)))) n = 7;
  else if (X.decide(mkEq(len, mkConst(2, 8)))) n = 13;
  for (size_t i = 0; i < n; i++) o.push_back(Exec::fromE(mkBin(E_ADD, X.freshSym(8, "opaque", 63), mkConst('0', 8))));
  X.S->opaque[{e->id, key}] = o;
  return o;
}
static VV formatArgs(Exec& X, CallInfo& ci, VV& a, size_t fi) {
  std::string f = X.cstr(X.concretize(a[fi], "format"));
  size_t ai = fi + 1;
  VV out;
  auto next = [&](unsigned& w) -> Val {
    if (ai >= a.size()) X.violation("undefined-behaviour", "too few arguments for format \"" + f + "\" in " + X.where());
    w = ci.argW[ai];
    return a[ai++];
  };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back(cv((u8)f[i])); continue; }
    i++;
    if (i < f.size() && f[i] == '%') { out.push_back(cv('%')); continue; }
    bool zero = false, left = false, plus = false, alt = false, space = false;
    for (;; i++) {
      if (f[i] == '0') zero = true; else if (f[i] == '-') left = true; else if (f[i] == '+') plus = true;
      else if (f[i] == '#') alt = true; else if (f[i] == ' ') space = true; else break;
    }
    (void)alt; (void)space;
    unsigned w;
    s64 width = 0, prec = -1;
    if (f[i] == '*') { width = (s64)sextVal(X.concretize(next(w), "width"), 32); i++; }
    else while (isdigit((u8)f[i])) width = width * 10 + (f[i++] - '0');
    if (f[i] == '.') {
      i++;
      if (f[i] == '*') { prec = (s64)sextVal(X.concretize(next(w), "precision"), 32); i++; }
      else { prec = 0; while (isdigit((u8)f[i])) prec = prec * 10 + (f[i++] - '0'); }
    }
    int bits = 32;
    bool ld = false;
    for (;; i++) {
      if (f[i] == 'l' || f[i] == 'j' || f[i] == 'z' || f[i] == 't') bits = 64;
      else if (f[i] == 'h') bits = bits == 16 ? 8 : 16;
      else if (f[i] == 'L') ld = true;
      else break;
    }
    VV t;
    char c = f[i];
    if (c == 's') {
      u64 p = X.concretize(next(w), "string");
      if (!p) X.violation("null-dereference", "null string formatted in " + X.where());
      for (u64 k = 0; prec < 0 || (s64)k < prec; k++) {
        Val b = ldByte(X, p + k);
        if (X.decide(mkEq(sy(X, b, 8), mkConst(0, 8)))) break;
        t.push_back(b);
      }
    } else if (c == 'c') {
      Val v = next(w);
      t.push_back(Exec::fromE(mkExtract(sy(X, v, w), 7, 0)));
    } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      Val v = next(w);
      if (c == 'p') bits = 64;
      E e = sy(X, v, w);
      if (w < (unsigned)bits) bits = (int)w;
      e = mkExtract(e, (unsigned)bits - 1, 0);
      bool neg = false;
      if (c == 'd' || c == 'i') {
        neg = X.decide(mkBin(E_SLT, e, mkConst(0, e->width)));
        if (neg) e = mkBin(E_SUB, mkConst(0, e->width), e);
      }
      e = mkZext(e, 64);
      unsigned base = c == 'o' ? 8 : (c == 'x' || c == 'X' || c == 'p') ? 16 : 10;
      size_t minD = prec >= 0 ? (size_t)prec : 1;
      if (zero && !left && prec < 0 && width > 0) minD = (size_t)width - (neg || plus ? 1 : 0);
      if (isC(e)) {
        u64 x = (u64)e->val;
        std::string s;
        while (x) { int d = (int)(x % base); s.insert(s.begin(), (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10)); x /= base; }
        while (s.size() < minD) s.insert(s.begin(), '0');
        putStr(t, s);
      } else {
        size_t nd = 0;
        u128 lim = 1;
        while (nd < minD) { lim *= base; nd++; }
        while (lim <= ~0ull && !X.decide(mkBin(E_ULT, e, mkConst(lim, 64)))) { lim *= base; nd++; }
        VV ds;
        E q = e;
        for (size_t k = 0; k < nd; k++) {
          E d;
          if (base == 16) { d = k < 16 ? mkZext(mkExtract(e, (unsigned)k * 4 + 3, (unsigned)k * 4), 8) : mkConst(0, 8); }
          else { d = mkExtract(mkBin(E_UREM, q, mkConst(base, 64)), 7, 0); q = mkBin(E_UDIV, q, mkConst(base, 64)); }
          ds.push_back(Exec::fromE(digitChar(d, c == 'X')));
        }
        t.assign(ds.rbegin(), ds.rend());
      }
      if (c == 'p') { VV z; putStr(z, "0x"); t.insert(t.begin(), z.begin(), z.end()); }
      if (neg) t.insert(t.begin(), cv('-'));
      else if (plus && (c == 'd' || c == 'i')) t.insert(t.begin(), cv('+'));
    } else if (strchr("gGeEfFaA", c)) {
      Val v = next(w);
      std::string spec = "%";
      if (zero) spec += '0'; if (left) spec += '-'; if (plus) spec += '+'; if (alt) spec += '#';
      if (width) spec += std::to_string(width);
      if (prec >= 0) spec += "." + std::to_string(prec);
      E e = sy(X, v, w);
      if (ld != (w == 80)) X.violation("undefined-behaviour", "format \"" + f + "\" does not match the argument type in " + X.where());
      if (ld) {
        // a long double extended from a double carries the tag of the opaque extension
        if (!isC(e) && e->op == E_CONCAT && isC(e->k[0]) && e->k[0]->val == 0xF00D) { t = floatText(X, e->k[1], 64, spec + c); }
        else t = floatText(X, e, 80, spec + "L" + c);
      } else t = floatText(X, e, 64, spec + c);
      width = 0;
    } else X.incompletePath(std::string("format conversion %") + c);
    while ((s64)t.size() < width) { if (left) t.push_back(cv(' ')); else t.insert(t.begin(), cv(' ')); }
    out.insert(out.end(), t.begin(), t.end());
  }
  return out;
}
BI(b_sprintf) {
  VV t = formatArgs(X, ci, a, 1);
  u64 p = X.concretize(a[0], "buffer");
  X.locate(cv(p), t.size() + 1, true, "sprintf");
  t.push_back(cv(0));
  for (size_t i = 0; i < t.size(); i++) X.store(cv(p + i), t[i], 8);
  r[0] = cv(t.size() - 1);
  return B_DONE;
}
BI(b_snprintf) {
  VV t = formatArgs(X, ci, a, 2);
  u64 n = X.concretize(a[1], "size");
  u64 p = X.concretize(a[0], "buffer");
  r[0] = cv(t.size());
  if (!n) return B_DONE;
  size_t k = std::min<u64>(t.size(), n - 1);
  X.locate(cv(p), k + 1, true, "snprintf");
  for (size_t i = 0; i < k; i++) X.store(cv(p + i), t[i], 8);
  X.store(cv(p + k), cv(0), 8);
  return B_DONE;
}
// fprintf/printf: formatted here, written by the model's stream.
static BRes streamWrite(Exec& X, u64 stream, VV& t) {
  Fn* fn = P.fnByName.count("vm_fprintf_bytes") ? P.fnByName["vm_fprintf_bytes"] : nullptr;
  if (!fn) X.incompletePath("stream output without a model");
  u32 id = X.alloc(t.size() + 1, OK_GLOBAL, "formatted text");
  for (size_t i = 0; i < t.size(); i++) X.storeAt(id, (u32)i, t[i], 8);
  X.storeAt(id, (u32)t.size(), cv(0), 8);
  X.pendFn = fn;
  X.pendArgs = {cv(stream), cv((u64)id << 32), cv(t.size())};
  X.pendRet = true;
  return B_FRAME;
}
BI(b_fprintf) {
  UNUSED;
  VV t = formatArgs(X, ci, a, 1);
  return streamWrite(X, X.concretize(a[0], "stream"), t);
}

// ---------------------------------------------------------------- threads
// The kind (at 16) and count (at 4) of a recursive mutex lie where glibc keeps them.
static bool recursive(Exec& X, u64 m) {
  Exec::Loc l = X.locate(cv(m), 20, false, "mutex access");
  return (X.evalV(X.loadAt(l.id, l.off + 16, 32)) & 3) == 1;
}
static void addCount(Exec& X, u64 m, int d) {
  Exec::Loc l = X.locate(cv(m), 8, true, "mutex access");
  X.storeAt(l.id, l.off + 4, cv(X.evalV(X.loadAt(l.id, l.off + 4, 32)) + d), 32);
}
BI(b_mutex_lock) {
  u64 m = X.concretize(a[0], "mutex");
  if (X.mutexOwner(m) == X.S->cur + 1 && recursive(X, m)) { addCount(X, m, 1); if (!r.empty()) r[0] = cv(0); return B_DONE; }
  if (!X.schedPoint(PN_LOCK, m)) return B_BLOCK;
  if (X.mutexOwner(m) != 0) X.violation("deadlock", "deadlock: thread locks a mutex it cannot get in " + X.where());
  X.setMutexOwner(m, X.S->cur + 1);
  X.acquireFrom(m);
  if (!r.empty()) r[0] = cv(0);
  UNUSED;
  return B_DONE;
}
BI(b_mutex_trylock) {
  UNUSED;
  u64 m = X.concretize(a[0], "mutex");
  if (!X.schedPoint(PN_OTHER, m)) return B_BLOCK;
  if (X.mutexOwner(m) == X.S->cur + 1 && recursive(X, m)) { addCount(X, m, 1); r[0] = cv(0); return B_DONE; }
  if (X.mutexOwner(m) != 0) { r[0] = cv(16); return B_DONE; }
  X.setMutexOwner(m, X.S->cur + 1);
  X.acquireFrom(m);
  r[0] = cv(0);
  return B_DONE;
}
BI(b_mutex_unlock) {
  UNUSED;
  // The lock is free before the thread goes on: another thread may run between the two.
  if (X.S->th[X.S->cur].phase == 3) {
    X.schedPoint(PN_OTHER, 0);
    X.S->th[X.S->cur].phase = 0;
    if (!r.empty()) r[0] = cv(0);
    return B_DONE;
  }
  u64 m = X.concretize(a[0], "mutex");
  u64 o = X.mutexOwner(m);
  if (o != X.S->cur + 1) X.violation("unlock-not-owned", "mutex unlocked by a thread that does not hold it in " + X.where());
  {
    Exec::Loc l = X.locate(cv(m), 8, false, "mutex access");
    if (X.evalV(X.loadAt(l.id, l.off + 4, 32))) { addCount(X, m, -1); if (!r.empty()) r[0] = cv(0); return B_DONE; }
  }
  X.setMutexOwner(m, 0);
  X.releaseTo(m, false);
  if (!r.empty()) r[0] = cv(0);
  if (!X.cfg("afterunlock", 1) || X.liveThreads() <= 1) return B_DONE;
  X.S->th[X.S->cur].phase = 3;
  if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK;
  X.S->th[X.S->cur].phase = 0;
  return B_DONE;
}
static BRes condWait(Exec& X, u64 c, u64 m, bool timed, Val deadline, bool& timedOut) {
  auto& t0 = X.S->th[X.S->cur];
  if (t0.phase == 0) {
    X.locate(cv(c), 1, false, "condition variable access");
    if (X.mutexOwner(m) != X.S->cur + 1) X.violation("undefined-behaviour", "condition wait without holding the mutex in " + X.where());
    if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK;
    X.setMutexOwner(m, 0);
    X.releaseTo(m, false);
    auto& t = X.S->th[X.S->cur];
    t.status = T_WAIT_CV;
    t.cv = c; t.mtx = m; t.timed = timed; t.deadline = deadline; t.timedOut = false;
    t.phase = 1;
    X.pick(true);
    return B_BLOCK;
  }
  if (t0.phase == 1) {
    const bool canLate = timed && !t0.timedOut && X.S->timeouts + 1 <= (int)X.cfg("timeouts", 1) && X.cfg("latewake", 1) && !X.timeLe(t0.deadline, X.S->now);
    const Val deadline = t0.deadline;
    X.S->armed = false;
    t0.pend = PN_NONE;
    if (X.mutexOwner(m) != 0) X.violation("deadlock", "internal: condition wait resumed without the mutex");
    t0.phase = 2;
    // a waiter that was notified may nevertheless notice only after its deadline has passed
    if (timed && !t0.timedOut) {
      auto act = [&](State* s, int k) {
        s->inputs.push_back({1, nullptr, (u64)(3 + k) * 1000 + s->cur, "late"});
        if (k) { s->now = deadline; s->timeouts++; if (s->trace.size() < 400) s->trace.push_back("t" + std::to_string(s->cur) + " notices the notification only after its deadline"); }
      };
      if (canLate) {
        State* n = X.clone();
        State* save = X.S;
        auto sym = [&](State* s, u64 v) { X.S = s; E q = X.freshSym(8, "sched"); s->model.set(q->lo, v); s->pc.push_back(mkEq(q, mkConst(v, 8))); X.S = save; };
        sym(n, 1);
        act(n, 1);
        X.work.push_back(n);
        sym(save, 0);
      }
      act(X.S, 0);
    }
  }
  auto& t = X.S->th[X.S->cur];
  t.phase = 0;
  X.setMutexOwner(m, X.S->cur + 1);
  X.acquireFrom(m);
  timedOut = t.timedOut;
  return B_DONE;
}
BI(b_cv_wait) {  // std::condition_variable::wait(unique_lock&)
  UNUSED;
  u64 c = X.concretize(a[0], "cv"), ul = X.concretize(a[1], "lock");
  u64 m = X.concretize(X.load(cv(ul), 64), "mutex");
  bool to;
  return condWait(X, c, m, false, cv(0), to);
}
BI(b_pcond_wait) {
  UNUSED;
  bool to;
  r[0] = cv(0);
  return condWait(X, X.concretize(a[0], "cv"), X.concretize(a[1], "mutex"), false, cv(0), to);
}
// The nanoseconds of a struct timespec; seconds and nanoseconds that come from dividing one value give that value back.
static Val timeOf(Exec& X, u64 ts) {
  Val sec = X.load(cv(ts), 64), ns = X.load(cv(ts + 8), 64);
  if (!sec.e && !ns.e) {
    s64 s = (s64)sec.c, n = (s64)ns.c;
    if (s < 0 || (s == 0 && n < 0)) return cv(0);
    if (s >= 0x7fffffff0ll) return cv(~0ull - 1);
    return cv((u64)s * 1000000000ull + (u64)n);
  }
  E billion = mkConst(1000000000, 64), s = X.toE(sec, 64), n = X.toE(ns, 64), total = mkBin(E_ADD, mkBin(E_MUL, s, billion), n);
  if ((s->op == E_SDIV || s->op == E_UDIV) && s->k[1] == billion) {
    E x = s->k[0];
    Op rem = s->op == E_SDIV ? E_SREM : E_UREM;
    if (n == mkBin(rem, x, billion) || n == mkBin(E_SUB, x, mkBin(E_MUL, s, billion)) || n == mkBin(E_ADD, x, mkBin(E_MUL, s, mkConst((u128)(s64)-1000000000, 64)))) total = x;
  }
  if (X.decide(mkBin(E_SLT, total, mkConst(0, 64)))) return cv(0);
  return Exec::fromE(total);
}
BI(b_pcond_timed) {
  UNUSED;
  u64 c = X.concretize(a[0], "cv"), m = X.concretize(a[1], "mutex");
  u64 ts = X.concretize(a[a.size() - 1], "timespec");
  Val dl = timeOf(X, ts);
  bool to = false;
  BRes b = condWait(X, c, m, true, dl, to);
  if (b == B_DONE) r[0] = cv(to ? 110 : 0);
  return b;
}
static void wake(Exec& X, State* s, u32 tid) {
  auto& t = s->th[tid];
  t.status = T_READY;
  t.pend = PN_LOCK;
  t.pendAddr = t.mtx;
  (void)X;
}
BI(b_notify_one) {
  UNUSED;
  u64 c = X.concretize(a[0], "cv");
  X.locate(cv(c), 1, false, "condition variable access");
  if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK;
  X.locate(cv(c), 1, false, "condition variable access");
  if (!r.empty()) r[0] = cv(0);
  std::vector<u32> w;
  for (u32 i = 0; i < X.S->th.size(); i++) if (X.S->th[i].status == T_WAIT_CV && X.S->th[i].cv == c) w.push_back(i);
  if (w.empty()) return B_DONE;
  // every waiter may be the one that wakes: siblings continue right after the call
  State* self = X.S;
  u32 tid = self->cur;
  auto finish = [&](State* s, u32 k) {
    if (w.size() > 1) {
      X.S = s;
      E q = X.freshSym(8, "sched");
      s->model.set(q->lo, k);
      s->pc.push_back(mkEq(q, mkConst(k, 8)));
      X.S = self;
      s->inputs.push_back({1, nullptr, 5000ull + w[k], "wake"});
    }
    wake(X, s, w[k]);
  };
  for (size_t k = w.size(); k-- > 1;) {
    State* n = X.clone();
    n->armed = false;
    finish(n, (u32)k);
    n->th[tid].frames.back().ip++;
    X.work.push_back(n);
  }
  finish(self, 0);
  return B_DONE;
}
BI(b_notify_all) {
  UNUSED;
  u64 c = X.concretize(a[0], "cv");
  X.locate(cv(c), 1, false, "condition variable access");
  if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK;
  X.locate(cv(c), 1, false, "condition variable access");
  if (!r.empty()) r[0] = cv(0);
  for (u32 i = 0; i < X.S->th.size(); i++) if (X.S->th[i].status == T_WAIT_CV && X.S->th[i].cv == c) wake(X, X.S, i);
  return B_DONE;
}
BI(b_cv_ctor) { UNUSED; return B_DONE; }
BI(b_cv_dtor) {
  UNUSED;
  u64 c = X.concretize(a[0], "cv");
  X.locate(cv(c), 1, false, "condition variable access");
  for (auto& t : X.S->th) if (t.status == T_WAIT_CV && t.cv == c) X.violation("undefined-behaviour", "condition variable destroyed while a thread waits on it in " + X.where());
  return B_DONE;
}
BI(b_start_thread) {
  UNUSED;
  if (X.S->th.size() >= 10) X.incompletePath("more than 10 threads");
  u64 th = X.concretize(a[0], "thread"), up = X.concretize(a[1], "state");
  Val st = X.load(cv(up), 64);
  X.store(cv(up), cv(0), 64);
  auto it = P.fnByName.find("vf_thread_main");
  if (it == P.fnByName.end()) X.incompletePath("no thread model");
  u32 tid = X.spawn(it->second, {st});
  X.store(cv(th), cv(tid + 1), 64);
  return B_DONE;
}
BI(b_join) {
  UNUSED;
  u64 th = X.concretize(a[0], "thread");
  u64 id = X.concretize(X.load(cv(th), 64), "thread id");
  if (id == 0 || id > X.S->th.size()) X.violation("undefined-behaviour", "join of a thread that is not joinable in " + X.where());
  u32 t = (u32)id - 1;
  auto& me = X.S->th[X.S->cur];
  if (me.phase == 0) {
    if (t == X.S->cur) X.violation("deadlock", "thread joins itself in " + X.where());
    me.joinTid = t;
    me.status = T_JOIN;
    me.phase = 1;
    X.pick(true);
    return B_BLOCK;
  }
  X.S->armed = false;
  me.phase = 0;
  me.status = T_READY;
  me.pend = PN_NONE;
  X.vcJoin(me.vc, X.S->th[t].vc);
  X.S->th[t].joined = true;
  X.store(cv(th), cv(0), 64);
  return B_DONE;
}
BI(b_detach) {
  UNUSED;
  u64 th = X.concretize(a[0], "thread");
  u64 id = X.concretize(X.load(cv(th), 64), "thread id");
  if (id == 0 || id > X.S->th.size()) X.violation("undefined-behaviour", "detach of a thread that is not joinable in " + X.where());
  X.S->th[id - 1].detached = true;
  X.store(cv(th), cv(0), 64);
  return B_DONE;
}
BI(b_pthread_self) { UNUSED; r[0] = cv(X.S->cur + 1); return B_DONE; }
BI(b_now) { UNUSED; r[0] = X.S->now; return B_DONE; }
BI(b_guard_acquire) {
  UNUSED;
  u64 g = X.concretize(a[0], "guard");
  Exec::Loc l = X.locate(cv(g), 8, true, "guard");
  // byte 0: initialised, bytes 4..: 1 + initialising thread
  if (X.evalV(X.loadAt(l.id, l.off, 8))) { X.acquireFrom(g); r[0] = cv(0); return B_DONE; }
  u64 by = X.evalV(X.loadAt(l.id, l.off + 4, 32));
  if (by) {
    if (by == X.S->cur + 1) X.violation("deadlock", "recursive initialisation of a local static in " + X.where());
    // wait by yielding to another thread
    auto& t = X.S->th[X.S->cur];
    t.pend = PN_OTHER;
    X.S->armed = false;
    X.incompletePath("contended local static initialisation");
  }
  X.storeAt(l.id, l.off + 4, cv(X.S->cur + 1), 32);
  r[0] = cv(1);
  return B_DONE;
}
BI(b_guard_release) {
  UNUSED;
  u64 g = X.concretize(a[0], "guard");
  Exec::Loc l = X.locate(cv(g), 8, true, "guard");
  X.storeAt(l.id, l.off, cv(1), 8);
  X.storeAt(l.id, l.off + 4, cv(0), 32);
  X.releaseTo(g, false);
  return B_DONE;
}
BI(b_thread_atexit) {
  UNUSED;
  X.S->th[X.S->cur].dtors.push_back({X.concretize(a[0], "destructor"), X.concretize(a[1], "object")});
  r[0] = cv(0);
  return B_DONE;
}
BI(b_sched_yield) { UNUSED; if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK; if (!r.empty()) r[0] = cv(0); return B_DONE; }
BI(b_sleep) {  // std::this_thread::sleep_for etc.: time passes
  UNUSED;
  if (!X.schedPoint(PN_OTHER, 0)) return B_BLOCK;
  u64 ts = X.concretize(a[0], "timespec");
  Val d = timeOf(X, ts);
  X.S->now = Exec::fromE(mkBin(E_ADD, X.toE(X.S->now, 64), X.toE(d, 64)));
  r[0] = cv(0);
  return B_DONE;
}

// ---------------------------------------------------------------- harness interface
static std::string nameArg(Exec& X, const Val& v) { return X.cstr(X.concretize(v, "name")); }
static const char* intern(const std::string& s) {
  static std::unordered_map<std::string, char*> m;
  auto& p = m[s];
  if (!p) p = strdup(s.c_str());
  return p;
}
BI(b_vf_sym) {
  UNUSED;
  unsigned w = (unsigned)X.concretize(a[0], "width");
  std::string n = nameArg(X, a[1]);
  E s = X.freshSym(w, intern(n));
  X.S->inputs.push_back({0, s, 0, n});
  r[0] = Exec::fromE(mkZext(s, 64));
  return B_DONE;
}
BI(b_vf_range) {
  UNUSED;
  u64 lo = X.concretize(a[0], "lo"), hi = X.concretize(a[1], "hi");
  std::string n = nameArg(X, a[2]);
  E v;
  if (lo == hi) v = mkConst(lo, 64);
  else {
    unsigned w = 1;
    while (w < 64 && ((hi - lo) >> w)) w++;
    unsigned sw = w <= 1 ? 1 : w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64;
    E s = X.freshSym(sw, intern(n), hi - lo);
    v = mkBin(E_ADD, mkZext(s, 64), mkConst(lo, 64));
  }
  X.S->inputs.push_back({0, v, 0, n});
  r[0] = Exec::fromE(v);
  return B_DONE;
}
BI(b_vf_choose) {  // one of n alternatives, each explored on its own
  UNUSED;
  u64 n = X.concretize(a[0], "n");
  std::string nm = nameArg(X, a[1]);
  if (n == 0) X.endPath(2);
  auto put = [&](State* s, u64 k, bool adv) {
    State* save = X.S;
    X.S = s;
    if (n > 1) {
      E q = X.freshSym(16, intern(nm));
      s->model.set(q->lo, k);
      s->pc.push_back(mkEq(q, mkConst(k, 16)));
    }
    s->inputs.push_back({0, nullptr, k, nm});
    X.S = save;
    if (adv) {
      Frame& f = s->th[s->cur].frames.back();
      f.regs[X.curInst->dst] = cv(k);
      f.ip++;
    }
  };
  for (u64 k = n; k-- > 1;) {
    State* c = X.clone();
    put(c, k, true);
    X.work.push_back(c);
  }
  put(X.S, 0, false);
  r[0] = cv(0);
  return B_DONE;
}
BI(b_vf_sym_bytes) {
  UNUSED;
  u64 p = X.concretize(a[0], "pointer"), n = X.concretize(a[1], "n");
  std::string nm = nameArg(X, a[2]);
  for (u64 i = 0; i < n; i++) {
    E s = X.freshSym(8, intern(nm));
    X.S->inputs.push_back({0, s, 0, nm});
    X.store(cv(p + i), Exec::fromE(s), 8);
  }
  return B_DONE;
}
static E truth(Exec& X, const Val& v, unsigned w) { return mkNot(mkEq(sy(X, v, w), mkConst(0, w))); }
BI(b_vf_assume) {
  UNUSED;
  E c = truth(X, a[0], ci.argW[0]);
  if (isC(c)) { if (!c->val) X.endPath(2); return B_DONE; }
  if (!evalExpr(c, X.S->model)) {
    Model m = X.S->model;
    SatResult q = X.query(c, m);
    if (q == R_UNSAT) X.endPath(2);
    if (q == R_UNKNOWN) X.incompletePath("solver gave no answer for an assumption");
    X.S->model = m;
  }
  X.S->pc.push_back(c);
  return B_DONE;
}
BI(b_vf_assert) {
  UNUSED;
  X.assertE(truth(X, a[0], ci.argW[0]), nameArg(X, a[1]));
  return B_DONE;
}
BI(b_vf_fail) { UNUSED; X.asserts++; X.violation("assertion", nameArg(X, a[0])); }
BI(b_vf_reach) { UNUSED; X.S->reached.insert(nameArg(X, a[0])); return B_DONE; }
BI(b_vf_expect_trap) {
  UNUSED;
  u64 p = X.concretize(a[0], "label");
  X.S->expectTrap = p != 0;
  X.S->trapLabel = p ? X.cstr(p) : "";
  return B_DONE;
}
BI(b_vf_observe) {
  UNUSED;
  Val v = a[1];
  X.S->obs.push_back({nameArg(X, a[0]), {v}, 64});
  return B_DONE;
}
BI(b_vf_observe_bytes) {
  UNUSED;
  Observe o;
  o.name = nameArg(X, a[0]);
  o.w = 0;
  u64 p = X.concretize(a[1], "p"), n = X.concretize(a[2], "n");
  for (u64 i = 0; i < n; i++) o.bytes.push_back(ldByte(X, p + i));
  X.S->obs.push_back(o);
  return B_DONE;
}
BI(b_vf_param) {
  UNUSED;
  u64 k = X.concretize(a[0], "k"), d = X.concretize(a[1], "default");
  r[0] = cv(d);
  for (auto& p : X.params) if (p.first == k) r[0] = cv(p.second);
  return B_DONE;
}
BI(b_vf_heap_live) { UNUSED; r[0] = cv((u64)X.S->heapLive); return B_DONE; }
BI(b_vf_concretize) { UNUSED; r[0] = cv(X.concretize(a[0], "value")); return B_DONE; }
BI(b_vf_stop) { UNUSED; X.endPath(0); }
BI(b_vf_config) {
  UNUSED;
  std::string k = nameArg(X, a[0]);
  u64 v = X.concretize(a[1], "value");
  X.S->cfg[k] = v;
  if (k == "race") X.S->raceOn = v != 0;
  return B_DONE;
}
BI(b_vf_count) {
  UNUSED;
  const u64 p = X.concretize(a[0], "counter");
  Val d = a[1];
  const bool sync = X.concretize(a[2], "sync");
  const bool race = X.S->raceOn;
  X.S->raceOn = false;
  try {
    Val v = X.load(cv(p), 64);
    if (d.e || d.c) { v = v.e || d.e ? Exec::fromE(mkBin(E_ADD, X.toE(v, 64), X.toE(d, 64))) : cv(v.c + d.c); X.store(cv(p), v, 64); }
    r[0] = v;
  } catch (...) { X.S->raceOn = race; throw; }
  X.S->raceOn = race;
  if (sync) { X.acquireFrom(p); X.releaseTo(p, true); }
  return B_DONE;
}
BI(b_vf_now) { UNUSED; r[0] = X.S->now; return B_DONE; }
BI(b_vf_set_now) { UNUSED; X.S->now = a[0]; return B_DONE; }
BI(b_vf_native) { UNUSED; r[0] = cv(0); return B_DONE; }
BI(b_vf_trap_expected) { UNUSED; r[0] = cv(X.S->expectTrap); return B_DONE; }
BI(b_vf_is_alive) {  // is the block that p points into still allocated?
  UNUSED;
  u64 p = X.concretize(a[0], "p");
  Obj* o = X.S->mem.get((u32)(p >> 32));
  r[0] = cv(o && o->kind != OK_FREED);
  return B_DONE;
}

Builtin findBuiltin(const std::string& n) {
  static const std::unordered_map<std::string, Builtin> m = {
    {"llvm.memcpy", b_memcpy}, {"llvm.memcpy.inline", b_memcpy}, {"llvm.memmove", b_memcpy}, {"memcpy", b_memcpy}, {"memmove", b_memcpy},
    {"llvm.memset", b_memset}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"strlen", b_strlen}, {"strnlen", b_strnlen},
    {"memchr", b_memchr}, {"memrchr", b_memrchr}, {"strchr", b_strchr}, {"strrchr", b_strchr}, {"strcmp", b_strcmp}, {"strncmp", b_strcmp}, {"strcpy", b_strcpy},
    {"_Znwm", b_new}, {"_Znam", b_newa}, {"_ZnwmRKSt9nothrow_t", b_new}, {"_ZnamRKSt9nothrow_t", b_newa}, {"_ZnwmSt11align_val_t", b_new},
    {"_ZdlPv", b_delete}, {"_ZdlPvm", b_delete}, {"_ZdaPv", b_deletea}, {"_ZdaPvm", b_deletea}, {"_ZdlPvRKSt9nothrow_t", b_delete}, {"_ZdlPvSt11align_val_t", b_delete}, {"_ZdlPvmSt11align_val_t", b_delete},
    {"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free},
    {"llvm.sadd.with.overflow", b_ovf}, {"llvm.ssub.with.overflow", b_ovf}, {"llvm.smul.with.overflow", b_ovf},
    {"llvm.uadd.with.overflow", b_ovf}, {"llvm.usub.with.overflow", b_ovf}, {"llvm.umul.with.overflow", b_ovf},
    {"llvm.usub.sat", b_sat}, {"llvm.uadd.sat", b_sat}, {"llvm.sadd.sat", b_sat}, {"llvm.ssub.sat", b_sat},
    {"llvm.umin", b_minmax}, {"llvm.umax", b_minmax}, {"llvm.smin", b_minmax}, {"llvm.smax", b_minmax}, {"llvm.abs", b_abs},
    {"llvm.ctpop", b_ctpop}, {"llvm.ctlz", b_ctz}, {"llvm.cttz", b_ctz}, {"llvm.bswap", b_bswap}, {"llvm.fshl", b_fsh}, {"llvm.fshr", b_fsh},
    {"llvm.fabs", b_fabs}, {"fabs", b_fabs}, {"llvm.copysign", b_copysign}, {"llvm.floor", b_fround}, {"llvm.ceil", b_fround}, {"llvm.trunc", b_fround}, {"llvm.round", b_fround}, {"llvm.rint", b_fround}, {"llvm.nearbyint", b_fround}, {"llvm.roundeven", b_fround},
    {"floor", b_fround}, {"ceil", b_fround}, {"trunc", b_fround}, {"round", b_fround}, {"rint", b_fround}, {"nearbyint", b_fround},
    {"llvm.minnum", b_fminmax}, {"llvm.maxnum", b_fminmax}, {"fmin", b_fminmax}, {"fmax", b_fminmax}, {"llvm.sqrt", b_sqrt}, {"sqrt", b_sqrt}, {"llvm.is.fpclass", b_fclass},
    {"llvm.objectsize", b_objectsize}, {"llvm.lifetime.start", b_lifetime}, {"llvm.lifetime.end", b_lifetime},
    {"llvm.assume", b_assume}, {"llvm.trap", b_trap}, {"llvm.ubsantrap", b_trap}, {"llvm.debugtrap", b_trap}, {"llvm.threadlocal.address", b_tlsaddr},
    {"llvm.prefetch", b_nop}, {"llvm.sideeffect", b_nop}, {"llvm.stacksave", b_stacksave}, {"llvm.stackrestore", b_nop}, {"inlineasm", b_nop}, {"llvm.dbg.value", b_nop},
    {"llvm.x86.sse2.pause", b_nop},
    {"abort", b_abort}, {"_ZSt9terminatev", b_abort}, {"__assert_fail", b_assertfail}, {"exit", b_exit}, {"_Exit", b_exit}, {"quick_exit", b_exit}, {"__cxa_pure_virtual", b_purevirtual}, {"__cxa_deleted_virtual", b_purevirtual},
    {"__clang_call_terminate", b_abort},
    {"sprintf", b_sprintf}, {"snprintf", b_snprintf}, {"fprintf", b_fprintf},
    {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_trylock", b_mutex_trylock}, {"pthread_mutex_unlock", b_mutex_unlock}, {"pthread_mutex_init", b_nop}, {"pthread_mutex_destroy", b_nop},
    {"pthread_cond_clockwait", b_pcond_timed}, {"pthread_cond_timedwait", b_pcond_timed}, {"pthread_cond_wait", b_pcond_wait},
    {"pthread_cond_signal", b_notify_one}, {"pthread_cond_broadcast", b_notify_all},
    {"_ZNSt18condition_variableC1Ev", b_cv_ctor}, {"_ZNSt18condition_variableC2Ev", b_cv_ctor}, {"_ZNSt18condition_variableD1Ev", b_cv_dtor}, {"_ZNSt18condition_variableD2Ev", b_cv_dtor},
    {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_cv_wait}, {"_ZNSt18condition_variable10notify_oneEv", b_notify_one}, {"_ZNSt18condition_variable10notify_allEv", b_notify_all},
    {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", b_start_thread},
    {"_ZNSt6thread4joinEv", b_join}, {"_ZNSt6thread6detachEv", b_detach}, {"pthread_self", b_pthread_self},
    {"_ZNSt6chrono3_V212steady_clock3nowEv", b_now}, {"_ZNSt6chrono3_V212system_clock3nowEv", b_now},
    {"_ZNSt8ios_base4InitC1Ev", b_nop}, {"_ZNSt8ios_base4InitD1Ev", b_nop}, {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_nop}, {"__cxa_atexit", b_nop}, {"__cxa_thread_atexit", b_thread_atexit},
    {"sched_yield", b_sched_yield}, {"nanosleep", b_sleep},
    {"vf_sym", b_vf_sym}, {"vf_range", b_vf_range}, {"vf_choose", b_vf_choose}, {"vf_sym_bytes", b_vf_sym_bytes}, {"vf_assume", b_vf_assume}, {"vf_assert_", b_vf_assert},
    {"vf_fail", b_vf_fail}, {"vf_reach", b_vf_reach}, {"vf_expect_trap", b_vf_expect_trap}, {"vf_observe", b_vf_observe}, {"vf_observe_bytes", b_vf_observe_bytes},
    {"vf_param", b_vf_param}, {"vf_heap_live", b_vf_heap_live}, {"vf_concretize", b_vf_concretize}, {"vf_stop", b_vf_stop}, {"vf_config", b_vf_config}, {"vf_yield", b_sched_yield},
    {"vf_now", b_vf_now}, {"vf_count", b_vf_count}, {"vf_set_now", b_vf_set_now}, {"vf_native", b_vf_native}, {"vf_is_alive", b_vf_is_alive}, {"vf_trap_expected", b_vf_trap_expected},
  };
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return b_throw;
  if (n == "__cxa_throw" || n == "_Unwind_Resume" || n == "__cxa_rethrow" || n == "__cxa_throw_bad_array_new_length") return b_throw;
  if (n.rfind("__ubsan_handle", 0) == 0) return b_trap;
  return nullptr;
}

void externalGlobal(Obj* o, const std::string& name) {
  (void)name;
  (void)o;  // zero: __libc_single_threaded, vtables of type information, std streams
}

bool pureBuiltin(Builtin b) {
  return b == b_minmax || b == b_ovf || b == b_sat || b == b_bswap || b == b_fabs || b == b_ctpop || b == b_ctz || b == b_fclass || b == b_copysign || b == b_fsh;
}
