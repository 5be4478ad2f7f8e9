#include "exec.h"
#include <cxxabi.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>

u32 g_firstGlobal, g_nextObj;
std::vector<std::pair<u32, Obj*>> g_initialObjs;

std::string demangle(const std::string& n) {
  int st = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = d ? d : n;
  free(d);
  return r;
}
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- reporting
static std::vector<std::string> g_sites;
static std::map<std::string, u32> g_siteIdx;

static std::string frameStr(const Frame& f, bool top) {
  u32 ip = f.ip;
  if (!top && ip > 0) ip--;
  std::string s = demangle(f.fn->name);
  if (s.size() > 120) s = s.substr(0, 117) + "...";
  if (ip < f.fn->code.size() && f.fn->code[ip].file) {
    const char* fl = f.fn->code[ip].file;
    s += std::string(" (") + fl + ":" + std::to_string(f.fn->code[ip].line) + ")";
  }
  return s;
}
std::string Exec::where() {
  auto& th = S->th[S->cur];
  if (th.frames.empty()) return "(thread start)";
  return frameStr(th.frames.back(), true);
}
u32 Exec::siteId() {
  std::string s = "thread " + std::to_string(S->cur) + " at " + where();
  auto it = g_siteIdx.find(s);
  if (it != g_siteIdx.end()) return it->second;
  g_sites.push_back(s);
  return g_siteIdx[s] = (u32)g_sites.size();
}
std::string Exec::siteStr(u32 i) { return i && i <= g_sites.size() ? g_sites[i - 1] : "?"; }

void Exec::recordViolation(const std::string& kind, const std::string& label, const Model& m) {
  std::string key = kind + "|" + label;
  violPaths++;
  if (!violKeys.insert(key).second) return;
  Violation v;
  v.kind = kind;
  v.label = label;
  v.where = where();
  for (size_t t = 0; t < S->th.size(); t++) {
    auto& fr = S->th[t].frames;
    for (size_t i = fr.size(); i-- > 0;)
      v.stack.push_back("t" + std::to_string(t) + (t == S->cur ? "*" : "") + " " + frameStr(fr[i], i + 1 == fr.size()));
  }
  v.trace = S->trace;
  v.inputs = S->inputs;
  v.model = m;
  viols.push_back(v);
  u64 n = 0;
  for (auto& x : viols) if (!known.count(x.label)) n++;
  if (n >= maxViol) stop = true;
}
void Exec::violation(const std::string& kind, const std::string& label) {
  recordViolation(kind, label, S->model);
  throw PathEnd{1};
}
void Exec::incompletePath(const std::string& why) {
  incompletes.push_back(why + " at " + where());
  throw PathEnd{3};
}
void Exec::trapped(const std::string& what, bool isUB) {
  if (!isUB && S->expectTrap) {
    trapPaths++;
    reached.insert("trap:" + S->trapLabel);
    S->obs.push_back({"trap:" + S->trapLabel, {}, 0});
    throw PathEnd{0};
  }
  violation(isUB ? "undefined-behaviour" : "abort", what);
}

// ---------------------------------------------------------------- solver interface
E Exec::freshSym(unsigned w, const char* name, u64 maxv) {
  E s = mkSym(S->nsyms++, w, name, (u128)maxv & maskOf(w));
  S->model.set(s->lo, 0);
  return s;
}

SatResult Exec::query(E extra, Model& m) {
  if (isC(extra)) return extra->val ? R_SAT : R_UNSAT;
  // independence slicing
  static std::vector<u8> mark;
  static std::vector<u32> marked;
  if (mark.size() < g_syms.size() + 16) mark.resize(g_syms.size() * 2 + 16, 0);
  marked.clear();
  for (u32 s : symsOf(extra)) { mark[s] = 1; marked.push_back(s); }
  std::vector<E> cs{extra};
  std::vector<u8> used(S->pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S->pc.size(); i++) {
      if (used[i]) continue;
      auto& ss = symsOf(S->pc[i]);
      bool hit = false;
      for (u32 s : ss) if (mark[s]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      cs.push_back(S->pc[i]);
      for (u32 s : ss) if (!mark[s]) { mark[s] = 1; marked.push_back(s); ch = true; }
    }
  }
  for (u32 s : marked) mark[s] = 0;
  return solverCheck(cs, m);
}

bool Exec::decide(E c) {
  if (isC(c)) return c->val != 0;
  E nc = mkNot(c);
  for (size_t i = S->pc.size(); i-- > 0;) {
    if (S->pc[i] == c) return true;
    if (S->pc[i] == nc) return false;
  }
  bool mv = evalExpr(c, S->model) != 0;
  E other = mv ? nc : c;
  Model m2 = S->model;
  SatResult r = query(other, m2);
  if (r == R_UNKNOWN) {
    incomplete++;
    incompletes.push_back("solver gave no answer at " + where());
  }
  if (r == R_SAT) {
    State* n = clone();
    n->model = m2;
    n->pc.push_back(other);
    work.push_back(n);
    S->pc.push_back(mv ? c : nc);
    S->decisions++;
  }
  return mv;
}

State* Exec::clone() {
  State* n = new State(*S);
  n->id = nextStateId++;
  n->depth++;
  forks++;
  return n;
}

u64 Exec::concretize(const Val& v, const char* what) {
  if (!v.e) return v.c;
  if (isC(v.e)) return (u64)v.e->val;
  u64 x = (u64)evalExpr(v.e, S->model);
  bool t = decide(mkEq(v.e, mkConst(x, v.e->width)));
  if (!t) incompletePath("concretize");
  return x;
}

void Exec::assertE(E c, const std::string& label) {
  asserts++;
  assertCount[label]++;
  if (isC(c)) {
    if (!c->val) violation("assertion", label);
    return;
  }
  bool mv = evalExpr(c, S->model) != 0;
  if (!mv) {
    recordViolation("assertion", label, S->model);
    Model m2 = S->model;
    if (query(c, m2) != R_SAT) throw PathEnd{1};
    S->model = m2;
    S->pc.push_back(c);
    return;
  }
  Model m2 = S->model;
  SatResult r = query(mkNot(c), m2);
  if (r == R_SAT) {
    recordViolation("assertion", label, m2);
    S->pc.push_back(c);
  } else if (r == R_UNKNOWN) {
    incomplete++;
    incompletes.push_back("solver gave no answer for assertion " + label);
  }
}

// ---------------------------------------------------------------- memory
u32 Exec::alloc(u64 size, u8 kind, const char* name) {
  if (size > (64u << 20)) incompletePath("allocation of " + std::to_string(size) + " bytes");
  u32 id = S->nextObj++;
  Obj* o = new Obj(size, kind);
  o->name = name;
  if (size) { o->st.assign(size, 1); o->special = (u32)size; }
  S->mem.put(id, o);
  return id;
}

void Exec::freeObj(u32 id, u32 site) {
  Obj* o = S->mem.get(id);
  if (S->raceOn && S->th.size() > 1) raceAccess(id, 0, o->size, true, false);
  Obj* t = new Obj(0, OK_FREED);
  t->name = o->name;
  t->freedKind = o->kind;
  t->size = o->size;
  t->freeSite = site;
  t->site = o->site;
  S->mem.put(id, t);
}

static std::string objDesc(Obj* o) {
  if (!o) return "no object";
  static const char* kn[] = {"global", "stack object", "heap block (new)", "heap block (new[])", "heap block (malloc)", "thread-local", "freed"};
  return std::string(kn[o->kind]) + " '" + o->name + "' of " + std::to_string(o->size) + " bytes";
}

Exec::Loc Exec::locate(const Val& addr, u64 n, bool write, const char* what) {
  u64 a = evalV(addr);
  u32 id = (u32)(a >> 32), off = (u32)a;
  Obj* o = S->mem.get(id);
  if (!o || o->kind == OK_FREED || (u64)off + n > o->size || (write && o->ro)) {
    std::string d;
    std::string kind;
    if (a < 0x100000) { kind = "null-dereference"; d = "access near null"; }
    else if (o && o->kind == OK_FREED) {
      kind = o->freedKind == OK_STACK ? "use-after-scope" : "use-after-free";
      d = std::string("access to freed memory ('") + o->name + "')";
    } else if (!o) { kind = "wild-pointer"; d = "access through invalid pointer"; }
    else if (o->ro && write) { kind = "write-to-constant"; d = "write to constant " + objDesc(o); }
    else { kind = "out-of-bounds"; d = std::string(what) + " out of bounds of " + objDesc(o); }
    violation(kind, d + " in " + where());
  }
  if (!addr.e) return {id, off, nullptr};
  E base = mkConst((u64)id << 32, 64);
  E offE = mkBin(E_SUB, addr.e, base);
  if (!decide(mkBin(E_ULE, offE, mkConst(o->size - n, 64)))) incompletePath("locate");
  if (isC(offE)) return {id, (u32)offE->val, nullptr};
  return {id, off, offE};
}

static const char* kUninit = "uninit";

Val Exec::loadAt(u32 id, u32 off, unsigned w) {
  Obj* o = S->mem.get(id);
  unsigned n = (w + 7) / 8;
  if (o->special == 0 && n <= 8) {
    u64 x = 0;
    memcpy(&x, o->data.data() + off, n);
    if (w < 64) x &= ((u64)1 << w) - 1;
    return cv(x);
  }
  bool plain = true;
  if (o->special) for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { plain = false; break; }
  if (plain) {
    if (n <= 8) {
      u64 x = 0;
      memcpy(&x, o->data.data() + off, n);
      if (w < 64) x &= ((u64)1 << w) - 1;
      return cv(x);
    }
    u128 x = 0;
    memcpy(&x, o->data.data() + off, n);
    return fromE(mkConst(x, w));
  }
  // uninitialised bytes become fresh unconstrained symbols (one per byte, remembered)
  bool un = false;
  for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 1) un = true;
  if (un) {
    o = S->mem.mut(id);
    for (unsigned i = 0; i < n; i++)
      if (o->st[off + i] == 1) {
        if (o->sym.empty()) o->sym.resize(o->size);
        o->sym[off + i] = {freshSym(8, kUninit), 0};
        o->st[off + i] = 2;
      }
  }
  if (o->st[off] == 2) {
    E e = o->sym[off].e;
    if (o->sym[off].idx == 0 && e->width == n * 8) {
      bool whole = true;
      for (unsigned i = 1; i < n; i++)
        if (o->st[off + i] != 2 || o->sym[off + i].e != e || o->sym[off + i].idx != i) { whole = false; break; }
      if (whole) return fromE(mkExtract(e, w - 1, 0));
    }
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    E b;
    if (o->st[off + i] == 0) b = mkConst(o->data[off + i], 8);
    else { auto& s = o->sym[off + i]; b = mkExtract(s.e, s.idx * 8 + 7, s.idx * 8); }
    r = r ? mkConcat(b, r) : b;
  }
  return fromE(mkExtract(r, w - 1, 0));
}

void Exec::storeAt(u32 id, u32 off, const Val& v, unsigned w) {
  Obj* o = S->mem.mut(id);
  unsigned n = (w + 7) / 8;
  if (!v.e || isC(v.e)) {
    if (!v.e) {
      u64 x = v.c;
      memcpy(o->data.data() + off, &x, n <= 8 ? n : 8);
      if (n > 8) memset(o->data.data() + off + 8, 0, n - 8);
    } else {
      u128 x = v.e->val;
      memcpy(o->data.data() + off, &x, n);
    }
    if (o->special) {
      for (unsigned i = 0; i < n; i++)
        if (o->st[off + i]) { o->st[off + i] = 0; o->special--; }
    }
    return;
  }
  if (o->st.empty()) o->st.assign(o->size, 0);
  if (o->sym.empty()) o->sym.resize(o->size);
  E e = v.e;
  if (e->width != n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    // bytes whose value is already constant stay concrete
    E b = nullptr;
    if (e->op == E_CONCAT || e->op == E_ZEXT) {
      b = mkExtract(e, i * 8 + 7, i * 8);
      if (isC(b)) {
        o->data[off + i] = (u8)b->val;
        if (o->st[off + i]) { o->st[off + i] = 0; o->special--; }
        continue;
      }
    }
    if (!o->st[off + i]) o->special++;
    o->st[off + i] = 2;
    o->sym[off + i] = {e, (u8)i};
  }
}

static unsigned trailingZeros(E e) {
  switch (e->op) {
    case E_CONST: { if (!e->val) return e->width; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case E_CONCAT: { unsigned n = trailingZeros(e->k[1]); return n < e->k[1]->width ? n : n + trailingZeros(e->k[0]); }
    case E_ZEXT: { unsigned n = trailingZeros(e->k[0]); return n < e->k[0]->width ? n : e->width; }
    case E_ADD: case E_SUB: case E_OR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case E_MUL: return std::min<unsigned>(e->width, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case E_ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    default: return 0;
  }
}

Val Exec::load(const Val& addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Loc l = locate(addr, n, false, "read");
  if (S->raceOn && S->th.size() > 1) raceAccess(l.id, l.off, n, false, false);
  if (!l.offE) return loadAt(l.id, l.off, w);
  Obj* o = S->mem.get(l.id);
  u32 step = 1u << std::min(12u, trailingZeros(l.offE));
  u64 maxOff = std::min<u64>(o->size - n, (u64)l.offE->maxv);
  if (maxOff / step > 300) {
    u64 x = concretize(fromE(l.offE), "offset");
    return loadAt(l.id, (u32)x, w);
  }
  unsigned lo = 0;
  while ((1u << lo) < step) lo++;
  unsigned hi = lo;
  while (hi < 63 && (1ull << hi) <= maxOff) hi++;
  // a decision tree over the bits of the offset
  std::function<E(unsigned, u64)> tree = [&](unsigned bit, u64 base) -> E {
    if (base > maxOff) return nullptr;
    if (bit == lo) return toE(loadAt(l.id, (u32)base, w), w);
    E z = tree(bit - 1, base), o = tree(bit - 1, base + (1ull << (bit - 1)));
    if (!o || z == o) return z;
    return mkIte(mkExtract(l.offE, bit - 1, bit - 1), o, z);
  };
  E r = tree(hi, 0);
  return fromE(r);
}

void Exec::store(const Val& addr, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Loc l = locate(addr, n, true, "write");
  u32 off = l.off;
  if (l.offE) off = (u32)concretize(fromE(l.offE), "offset");
  if (S->raceOn && S->th.size() > 1) raceAccess(l.id, off, n, true, false);
  storeAt(l.id, off, v, w);
}

void Exec::copyBytes(u32 did, u32 doff, u32 sid, u32 soff, u32 n) {
  if (!n) return;
  Obj* s = S->mem.get(sid);
  if (S->raceOn && S->th.size() > 1) { raceAccess(sid, soff, n, false, false); raceAccess(did, doff, n, true, false); }
  std::vector<u8> data(s->data.begin() + soff, s->data.begin() + soff + n);
  std::vector<u8> st;
  std::vector<SymB> sym;
  if (s->special) {
    st.assign(s->st.begin() + soff, s->st.begin() + soff + n);
    if (!s->sym.empty()) sym.assign(s->sym.begin() + soff, s->sym.begin() + soff + n);
  }
  Obj* d = S->mem.mut(did);
  memcpy(d->data.data() + doff, data.data(), n);
  if (st.empty()) {
    if (d->special)
      for (u32 i = 0; i < n; i++) if (d->st[doff + i]) { d->st[doff + i] = 0; d->special--; }
    return;
  }
  if (d->st.empty()) d->st.assign(d->size, 0);
  if (!sym.empty() && d->sym.empty()) d->sym.resize(d->size);
  for (u32 i = 0; i < n; i++) {
    if (d->st[doff + i] && !st[i]) d->special--;
    if (!d->st[doff + i] && st[i]) d->special++;
    d->st[doff + i] = st[i];
    if (st[i] == 2) d->sym[doff + i] = sym[i];
  }
}

std::string Exec::cstr(u64 addr) {
  std::string s;
  for (u64 i = 0;; i++) {
    Val b = load(cv(addr + i), 8);
    u64 c = concretize(b, "cstr");
    if (!c) return s;
    s.push_back((char)c);
    if (s.size() > 65536) incompletePath("long C string");
  }
}

// ---------------------------------------------------------------- data races
void Exec::vcJoin(std::vector<u32>& a, const std::vector<u32>& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
void Exec::acquireFrom(u64 addr) {
  auto it = S->sync.find(addr);
  if (it != S->sync.end()) vcJoin(S->th[S->cur].vc, it->second);
}
void Exec::releaseTo(u64 addr, bool merge) {
  auto& t = S->th[S->cur];
  auto& v = S->sync[addr];
  if (merge) vcJoin(v, t.vc);
  else v = t.vc;
  if (t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0);
  t.vc[S->cur]++;
}

void Exec::raceAccess(u32 id, u32 off, u32 n, bool write, bool atomic) {
  if (atomic) return;
  Obj* o = S->mem.get(id);
  if (!o || o->ro || n == 0) return;
  u32 tid = S->cur;
  auto& vc = S->th[tid].vc;
  auto clk = [&](u32 t) { return t < vc.size() ? vc[t] : 0u; };
  u32 site = 0;
  o = S->mem.mut(id);
  if (!o->race) o->race = std::make_unique<std::map<u32, RaceRec>>();
  for (u32 g = off / 8; g <= (off + n - 1) / 8; g++) {
    u32 lo = std::max(off, g * 8) - g * 8, hi = std::min(off + n, g * 8 + 8) - g * 8;
    u8 mask = (u8)(((1u << (hi - lo)) - 1) << lo);
    RaceRec& r = (*o->race)[g];
    if (r.wTid != ~0u && r.wTid != tid && (r.wMask & mask) && r.wClk > clk(r.wTid))
      violation("data-race", std::string("data race on ") + o->name + ": " + (write ? "write" : "read") + " by " + siteStr(siteId()) +
                " and unsynchronised write by " + siteStr(r.wSite));
    if (write) {
      for (u32 t = 0; t < 6; t++)
        if (t != tid && (r.rMask[t] & mask) && r.rClk[t] > clk(t))
          violation("data-race", std::string("data race on ") + o->name + ": write by " + siteStr(siteId()) +
                    " and unsynchronised read by " + siteStr(r.rSite[t]));
      if (!site) site = siteId();
      if (r.wTid == tid && r.wClk == clk(tid)) r.wMask |= mask;
      else r.wMask = mask;
      r.wTid = tid; r.wClk = clk(tid); r.wSite = site;
    } else if (tid < 6) {
      if (r.rClk[tid] == clk(tid)) { if ((r.rMask[tid] | mask) == r.rMask[tid]) continue; r.rMask[tid] |= mask; }
      else r.rMask[tid] = mask;
      r.rClk[tid] = clk(tid);
      if (!site) site = siteId();
      r.rSite[tid] = site;
    }
  }
}

// ---------------------------------------------------------------- threads
u64 Exec::mutexOwner(u64 addr) {
  Loc l = locate(cv(addr), 8, false, "mutex access");
  return evalV(loadAt(l.id, l.off, 32));
}
void Exec::setMutexOwner(u64 addr, u64 o) {
  Loc l = locate(cv(addr), 8, true, "mutex access");
  storeAt(l.id, l.off, cv(o), 32);
}
u32 Exec::liveThreads() {
  u32 n = 0;
  for (auto& t : S->th) if (t.status != T_DONE) n++;
  return n;
}
bool Exec::enabled(u32 i) {
  auto& t = S->th[i];
  switch (t.status) {
    case T_READY:
      if (t.pend == PN_LOCK) {
        Obj* o = S->mem.get((u32)(t.pendAddr >> 32));
        if (!o || o->kind == OK_FREED) return true;  // will be reported when it runs
        return evalV(loadAt((u32)(t.pendAddr >> 32), (u32)t.pendAddr, 32)) == 0;
      }
      return true;
    case T_JOIN: return S->th[t.joinTid].status == T_DONE;
    default: return false;
  }
}

bool Exec::timeLe(const Val& a, const Val& b) {
  if (!a.e && !b.e) return a.c <= b.c;
  return decide(mkBin(E_ULE, toE(a, 64), toE(b, 64)));
}

// Chooses which thread acts next. Every alternative becomes a sibling state in which the schedule symbol has another value.
void Exec::pick(bool forced) {
  if (++S->picks > 20000) violation("hang", "path exceeds the limit of schedule points");
  if (dedup && seenState(forced)) { for (auto& r : S->reached) reached.insert(r); throw PathEnd{4}; }
  struct Alt { u32 tid; int act; int pre, tmo, spu; bool passed = false; };  // act 0 run, 1 timeout, 2 spurious wakeup
  std::vector<Alt> alts;
  u32 n = (u32)S->th.size();
  bool curEn = !forced && S->th[S->cur].status != T_DONE && enabled(S->cur);
  int maxPre = (int)cfg("preempt", 2), maxTmo = (int)cfg("timeouts", 1), maxSpu = (int)cfg("spurious", 0);
  bool anyEn = false;
  for (u32 i = 0; i < n; i++) if (enabled(i)) anyEn = true;
  for (u32 i = 0; i < n; i++) {
    if (enabled(i)) {
      int pre = (curEn && i != S->cur) ? 1 : 0;
      if (S->preempts + pre <= maxPre) alts.push_back({i, 0, pre, 0, 0, false});
    }
  }
  // timeouts: waiters whose deadline has passed may always time out; others cost budget unless nothing else can run
  struct Timed { u32 tid; bool passed, first; };
  std::vector<Timed> timed;
  for (u32 i = 0; i < n; i++) {
    auto& t = S->th[i];
    if (t.status != T_WAIT_CV || !t.timed) continue;
    // what is decided here is decided again by the siblings, which choose anew
    u8 np = S->needPick;
    S->needPick = forced ? 2 : 1;
    Timed d{i, timeLe(t.deadline, S->now), true};
    if (!d.passed && !anyEn)
      for (u32 j = 0; j < n && d.first; j++)
        if (j != i && S->th[j].status == T_WAIT_CV && S->th[j].timed && !timeLe(S->th[i].deadline, S->th[j].deadline)) d.first = false;
    S->needPick = np;
    timed.push_back(d);
  }
  for (u32 i = 0; i < n; i++) {
    auto& t = S->th[i];
    for (auto& d : timed) {
      if (d.tid != i) continue;
      int cost = (anyEn && !d.passed) ? 1 : 0;
      int pre = curEn ? 1 : 0;
      if (!anyEn && !d.first && !d.passed) cost = 1;
      if (S->timeouts + cost <= maxTmo && S->preempts + pre <= maxPre) alts.push_back({i, 1, pre, cost, 0, d.passed});
    }
    if (t.status == T_WAIT_CV && S->spurious + 1 <= maxSpu && anyEn) alts.push_back({i, 2, 0, 0, 1, false});
  }
  if (alts.empty()) {
    std::string d = "deadlock: no thread can proceed";
    violation("deadlock", d);
  }
  // keep the current thread first so that the depth-first search starts with the least switching
  std::stable_sort(alts.begin(), alts.end(), [&](const Alt& a, const Alt& b) {
    auto key = [&](const Alt& x) { return (x.act == 0 && x.tid == S->cur) ? 0 : 1 + x.act; };
    return key(a) < key(b);
  });
  auto apply = [&](State* s, const Alt& a, size_t idx) {
    if (alts.size() > 1) {
      State* save = S;
      S = s;
      E sy = freshSym(8, "sched");
      S->model.set(sy->lo, idx);
      S->pc.push_back(mkEq(sy, mkConst(idx, 8)));
      S = save;
    }
    s->inputs.push_back({1, nullptr, (u64)a.act * 1000 + a.tid, "sched"});
    s->preempts += a.pre; s->timeouts += a.tmo; s->spurious += a.spu;
    if (a.act == 0) {
      s->cur = a.tid;
      if (s->th[a.tid].pend == PN_START) { s->th[a.tid].pend = PN_NONE; s->armed = false; }
      else s->armed = true;
    } else {
      auto& t = s->th[a.tid];
      t.status = T_READY;
      t.pend = PN_LOCK;
      t.pendAddr = t.mtx;
      t.timedOut = a.act == 1;
      if (a.act == 1 && !a.passed) s->now = t.deadline;
      s->armed = false;
      s->needPick = forced ? 2 : 1;
    }
    if (s->trace.size() < 400) {
      static const char* an[] = {"run", "timeout", "spurious wakeup"};
      s->trace.push_back(std::string(an[a.act]) + " t" + std::to_string(a.tid));
    }
  };
  transitions++;
  for (size_t i = alts.size(); i-- > 1;) {
    State* c = clone();
    apply(c, alts[i], i);
    work.push_back(c);
  }
  apply(S, alts[0], 0);
  threadSwitched = true;
}

// Returns true if the calling builtin may perform its operation now.
bool Exec::schedPoint(u8 kind, u64 addr) {
  auto& t = S->th[S->cur];
  if (S->armed) {
    S->armed = false;
    t.pend = PN_NONE;
    return true;
  }
  t.pend = kind;
  t.pendAddr = addr;
  if (liveThreads() <= 1) {
    bool timedWait = false;
    (void)timedWait;
    if (!enabled(S->cur)) violation("deadlock", "deadlock: the only thread blocks on a mutex it cannot get");
    t.pend = PN_NONE;
    return true;
  }
  pick(false);
  return false;
}

u32 Exec::spawn(Fn* fn, const std::vector<Val>& args) {
  lowerFn(fn);
  Thread nt;
  u32 tid = (u32)S->th.size();
  nt.vc = S->th[S->cur].vc;
  if (nt.vc.size() <= tid) nt.vc.resize(tid + 1, 0);
  nt.vc[tid] = 1;
  auto& ct = S->th[S->cur];
  if (ct.vc.size() <= S->cur) ct.vc.resize(S->cur + 1, 0);
  ct.vc[S->cur]++;
  Frame f;
  f.fn = fn;
  f.regs.resize(fn->nslots);
  for (size_t i = 0; i < args.size(); i++) f.regs[i] = args[i];
  nt.frames.push_back(std::move(f));
  nt.pend = PN_START;
  S->th.push_back(std::move(nt));
  return tid;
}

void Exec::threadFinished() {
  auto& t = S->th[S->cur];
  if (!t.dtors.empty() && S->cur != 0) {
    auto d = t.dtors.back();
    t.dtors.pop_back();
    Fn* fn = P.fns[d.first >> 32];
    pushFrame(fn, {cv(d.second)}, -1, 0);
    return;
  }
  if (S->cur == 0) {
    finishPath();
    throw PathEnd{0};
  }
  for (u32 id : t.tls) if (id) { Obj* o = S->mem.get(id); if (o && o->kind != OK_FREED) freeObj(id, 0); }
  t.status = T_DONE;
  if (t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0);
  pick(true);
}

// ---------------------------------------------------------------- frames
void Exec::pushFrame(Fn* fn, const std::vector<Val>& args, int32_t retDst, u32 retN) {
  lowerFn(fn);
  if (fn->code.empty()) incompletePath("call of undefined function " + fn->name);
  fn->execCount++;
  auto& t = S->th[S->cur];
  if (t.frames.size() > 2000) violation("stack-overflow", "call depth exceeds 2000 in " + demangle(fn->name));
  Frame f;
  f.fn = fn;
  f.regs.resize(fn->nslots);
  size_t n = std::min(args.size(), fn->paramW.size());
  for (size_t i = 0; i < n; i++) f.regs[i] = args[i];
  f.retDst = retDst;
  f.retN = retN;
  for (auto& b : fn->byvalParams) {
    u32 id = alloc(b.second, OK_STACK, "byval");
    Loc l = locate(f.regs[b.first], b.second, false, "byval copy");
    copyBytes(id, 0, l.id, l.off, b.second);
    f.regs[b.first] = cv((u64)id << 32);
    f.allocas.push_back(id);
  }
  t.frames.push_back(std::move(f));
}

void Exec::doRet(const std::vector<Val>& vals) {
  auto& t = S->th[S->cur];
  Frame f = std::move(t.frames.back());
  t.frames.pop_back();
  for (u32 id : f.allocas) {
    Obj* o = S->mem.get(id);
    if (o && o->kind != OK_FREED) freeObj(id, 0);
  }
  if (t.frames.empty()) { threadFinished(); return; }
  Frame& c = t.frames.back();
  if (f.retDst >= 0)
    for (size_t i = 0; i < vals.size() && i < f.retN; i++) c.regs[f.retDst + i] = vals[i];
}

Val Exec::opv(Frame& f, Opnd o, unsigned w) {
  if (o >= 0) return f.regs[o];
  const Val& v = f.fn->pool[-o - 1];
  if (v.e == UNDEF_MARK) {
    E& u = S->undefs[{f.fn->id, (int)o * 256 + (int)(w & 255)}];
    if (!u) u = freshSym(w, "undef");
    return fromE(u);
  }
  return v;
}

void Exec::edge(Frame& f, u32 e) {
  Edge& ed = f.fn->edges[e];
  if (!ed.copies.empty()) {
    Val tmp[16];
    size_t n = ed.copies.size();
    if (n <= 16) {
      for (size_t i = 0; i < n; i++) tmp[i] = opv(f, ed.copies[i].second, ed.widths[i]);
      for (size_t i = 0; i < n; i++) f.regs[ed.copies[i].first] = tmp[i];
    } else {
      std::vector<Val> t2(n);
      for (size_t i = 0; i < n; i++) t2[i] = opv(f, ed.copies[i].second, ed.widths[i]);
      for (size_t i = 0; i < n; i++) f.regs[ed.copies[i].first] = t2[i];
    }
  }
  f.ip = ed.target;
}

static bool cmpOp(u8 pred, Op& op, bool& swap, bool& neg) {
  swap = neg = false;
  switch (pred) {
    case 32: op = E_EQ; return true;
    case 33: op = E_EQ; neg = true; return true;
    case 34: op = E_ULT; swap = true; return true;   // ugt
    case 35: op = E_ULE; swap = true; return true;   // uge
    case 36: op = E_ULT; return true;
    case 37: op = E_ULE; return true;
    case 38: op = E_SLT; swap = true; return true;
    case 39: op = E_SLE; swap = true; return true;
    case 40: op = E_SLT; return true;
    case 41: op = E_SLE; return true;
  }
  return false;
}

// ---------------------------------------------------------------- merging of local control flow
// Evaluates one side-effect free instruction; false if it might not be one.
bool Exec::pureStep(Frame& f, Inst& I) {
  switch (I.k) {
    case I_BIN:
      if (I.sub >= E_UDIV && I.sub <= E_SREM) {
        Val b = opv(f, I.b, I.w);
        if (b.e || b.c == 0) return false;
      }
      break;
    case I_FCMP: case I_FNEG: if (I.w == 80) return false; break;
    case I_FCAST: if (I.w == 80 || I.w2 == 80) return false; break;
    case I_CMP: case I_SELECT: case I_ZEXT: case I_SEXT: case I_TRUNC: case I_COPY: case I_GEP: break;
    case I_LOAD: {
      if (I.sub || (S->raceOn && S->th.size() > 1)) return false;
      Val p = opv(f, I.a, 64);
      if (p.e) return false;
      u64 a = p.c + I.x;
      Obj* o = S->mem.get((u32)(a >> 32));
      if (!o || o->kind == OK_FREED || (u64)(u32)a + (I.w + 7) / 8 > o->size) return false;
      break;
    }
    case I_CALL: {
      CallInfo& ci = f.fn->calls[I.x];
      if (!ci.builtin || !pureBuiltin(ci.builtin)) return false;
      break;
    }
    default: return false;
  }
  u32 ip = f.ip;
  Inst* ci = curInst;
  exec1(f, I);
  f.ip = ip;
  curInst = ci;
  return true;
}

// At a branch whose condition is unknown, the acyclic side-effect free code behind it is evaluated on all sides at once:
// the sides meet again in a few exit blocks, and only those are told apart by forking.
bool Exec::region(Frame& f, Inst& I, Val cond) {
  struct In { E g; u32 edge; };
  std::map<std::pair<u32, u32>, std::vector<In>> pending;  // (rpo, block start)
  struct Exit { u32 target; std::vector<In> in; };
  std::vector<Exit> exits;
  Fn* fn = f.fn;
  u32 home = fn->rpo[f.ip];
  auto push = [&](u32 e, E g, u32 fromRpo) {
    if (isC(g) && !g->val) return;
    u32 t = fn->edges[e].target;
    if (fn->rpo[t] <= fromRpo || fn->rpo[t] <= home) {  // back edge
      for (auto& x : exits) if (x.target == t) { x.in.push_back({g, e}); return; }
      exits.push_back({t, {{g, e}}});
      return;
    }
    pending[{fn->rpo[t], t}].push_back({g, e});
  };
  auto branch = [&](Inst& B, Val c, E g, u32 rpo) {
    if (B.k == I_CONDBR) {
      E ce = toE(c, 1);
      push(B.x, mkAnd(g, ce), rpo);
      push((u32)B.b, mkAnd(g, mkNot(ce)), rpo);
    } else {
      SwitchInfo& s = fn->switches[B.x];
      E ce = toE(c, B.w);
      E rest = g;
      std::map<u32, E> byTarget;  // edges with identical effect are joined first
      std::vector<u32> order;
      for (auto& k : s.cases) {
        E q = mkEq(ce, mkConst(k.first, B.w));
        u32 key = k.second;
        for (u32 o : order) {
          Edge &x = fn->edges[o], &y = fn->edges[key];
          if (x.target == y.target && x.copies == y.copies) { key = o; break; }
        }
        auto it = byTarget.find(key);
        if (it == byTarget.end()) { byTarget[key] = q; order.push_back(key); }
        else it->second = mkOr(it->second, q);
        rest = mkAnd(rest, mkNot(q));
      }
      for (u32 o : order) push(o, mkAnd(g, byTarget[o]), rpo);
      push(s.def, rest, rpo);
    }
  };
  auto ptrClash = [&](const std::vector<In>& in) {
    for (size_t k = 0; k < fn->edges[in[0].edge].copies.size(); k++) {
      if (!fn->edges[in[0].edge].ptr[k]) continue;
      Val v0 = opv(f, fn->edges[in[0].edge].copies[k].second, 64);
      for (size_t i = 1; i < in.size(); i++) {
        Val v = opv(f, fn->edges[in[i].edge].copies[k].second, 64);
        if (v.e != v0.e || v.c != v0.c) return true;
      }
    }
    return false;
  };
  // Computes phi values for entering a block through several edges.
  auto enter = [&](const std::vector<In>& in) {
    size_t n = fn->edges[in[0].edge].copies.size();
    std::vector<Val> vals(n);
    for (size_t k = 0; k < n; k++) {
      unsigned w = fn->edges[in[0].edge].widths[k];
      E v = nullptr;
      bool same = true;
      Val v0 = opv(f, fn->edges[in[0].edge].copies[k].second, w);
      for (size_t i = 1; i < in.size(); i++) {
        Val vi = opv(f, fn->edges[in[i].edge].copies[k].second, w);
        if (vi.e != v0.e || vi.c != v0.c) { same = false; break; }
      }
      if (same) { vals[k] = v0; continue; }
      for (size_t i = in.size(); i-- > 0;) {
        E x = toE(opv(f, fn->edges[in[i].edge].copies[k].second, w), w);
        v = v ? mkIte(in[i].g, x, v) : x;
      }
      vals[k] = fromE(v);
    }
    for (size_t k = 0; k < n; k++) f.regs[fn->edges[in[0].edge].copies[k].first] = vals[k];
  };
  branch(I, cond, mkTrue(), home);
  int budget = 400;
  while (!pending.empty()) {
    auto it = pending.begin();
    u32 rpo = it->first.first, start = it->first.second;
    std::vector<In> in = it->second;
    if (pending.size() == 1 && exits.empty()) {  // everything meets here
      if (ptrClash(in)) {
        if (in.size() == 1) { exits.push_back({start, in}); }
        else for (auto& x : in) exits.push_back({start, {x}});
      } else exits.push_back({start, in});
      pending.erase(it);
      break;
    }
    pending.erase(it);
    if (ptrClash(in)) {
      for (auto& x : in) exits.push_back({start, {x}});
      continue;
    }
    enter(in);
    E g = nullptr;
    for (auto& x : in) g = g ? mkOr(g, x.g) : x.g;
    u32 ip = start;
    bool ok = true;
    while (true) {
      Inst& N = fn->code[ip];
      if (--budget < 0) { ok = false; break; }
      if (N.k == I_BR) { push(N.x, g, rpo); break; }
      if (N.k == I_CONDBR) { branch(N, opv(f, N.a, 1), g, rpo); break; }
      if (N.k == I_SWITCH) { branch(N, opv(f, N.a, N.w), g, rpo); break; }
      u32 save = f.ip;
      f.ip = ip;
      bool p = pureStep(f, N);
      f.ip = save;
      if (!p) { ok = false; break; }
      ip++;
    }
    if (!ok) exits.push_back({start, in});
  }
  if (exits.empty()) return false;
  auto gOf = [&](const Exit& x) { E g = nullptr; for (auto& i : x.in) g = g ? mkOr(g, i.g) : i.g; return g; };
  size_t k = 0;
  for (; k + 1 < exits.size(); k++) if (decide(gOf(exits[k]))) break;
  Exit& x = exits[k];
  enter(x.in);
  f.ip = x.target;
  merges++;
  return true;
}

// ---------------------------------------------------------------- interpreter
void Exec::step() {
  if (S->needPick) {
    bool forced = S->needPick == 2;
    S->needPick = 0;
    S->steps++;
    pick(forced);
    return;
  }
  auto& th = S->th[S->cur];
  Frame& f = th.frames.back();
  Inst& I = f.fn->code[f.ip];
  curInst = &I;
  S->steps++;
  instrs++;
  exec1(f, I);
}
void Exec::exec1(Frame& f, Inst& I) {
  switch (I.k) {
    case I_BIN: {
      Val a = opv(f, I.a, I.w), b = opv(f, I.b, I.w);
      Op op = (Op)I.sub;
      if (op >= E_UDIV && op <= E_SREM) {
        E z = toE(b, I.w);
        if (!isC(z)) { if (decide(mkEq(z, mkConst(0, I.w)))) violation("undefined-behaviour", "division by zero in " + where()); }
        else if (z->val == 0) violation("undefined-behaviour", "division by zero in " + where());
      }
      if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, r;
        unsigned w = I.w;
        u64 m = w >= 64 ? ~0ull : ((1ull << w) - 1);
        bool done = true;
        switch (op) {
          case E_ADD: r = (x + y) & m; break;
          case E_SUB: r = (x - y) & m; break;
          case E_MUL: r = (x * y) & m; break;
          case E_AND: r = x & y; break;
          case E_OR: r = x | y; break;
          case E_XOR: r = x ^ y; break;
          case E_SHL: r = y >= w ? 0 : (x << y) & m; break;
          case E_LSHR: r = y >= w ? 0 : x >> y; break;
          case E_UDIV: r = x / y; break;
          case E_UREM: r = x % y; break;
          default: done = false; r = 0;
        }
        if (!done) { bool ok; r = (u64)foldBin(op, x, y, w, ok); }
        f.regs[I.dst] = cv(r);
      } else {
        f.regs[I.dst] = fromE(mkBin(op, toE(a, I.w), toE(b, I.w)));
      }
      f.ip++;
      return;
    }
    case I_CMP: {
      Val a = opv(f, I.a, I.w), b = opv(f, I.b, I.w);
      if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        s64 sx = (s64)sextVal(x, I.w), sy = (s64)sextVal(y, I.w);
        bool r = false;
        switch (I.sub) {
          case 32: r = x == y; break; case 33: r = x != y; break;
          case 34: r = x > y; break; case 35: r = x >= y; break;
          case 36: r = x < y; break; case 37: r = x <= y; break;
          case 38: r = sx > sy; break; case 39: r = sx >= sy; break;
          case 40: r = sx < sy; break; case 41: r = sx <= sy; break;
        }
        f.regs[I.dst] = cv(r);
      } else {
        Op op; bool sw, ng;
        cmpOp(I.sub, op, sw, ng);
        E x = toE(a, I.w), y = toE(b, I.w);
        E r = sw ? mkBin(op, y, x) : mkBin(op, x, y);
        if (ng) r = mkNot(r);
        f.regs[I.dst] = fromE(r);
      }
      f.ip++;
      return;
    }
    case I_FCMP: {
      E a = toE(opv(f, I.a, I.w), I.w), b = toE(opv(f, I.b, I.w), I.w);
      if (I.w == 80) incompletePath("long double comparison");
      E uno = mkOr(mkFUn(E_FISNAN, a, 1), mkFUn(E_FISNAN, b, 1));
      E r;
      // predicate bits: U=8 L=4 G=2 E=1
      u8 p = I.sub;
      if (p == 0) r = mkFalse();
      else if (p == 15) r = mkTrue();
      else {
        switch (p & 7) {
          case 0: r = mkFalse(); break;
          case 1: r = mkBin(E_FEQ, a, b); break;
          case 2: r = mkBin(E_FLT, b, a); break;
          case 3: r = mkBin(E_FLE, b, a); break;
          case 4: r = mkBin(E_FLT, a, b); break;
          case 5: r = mkBin(E_FLE, a, b); break;
          case 6: r = mkOr(mkBin(E_FLT, a, b), mkBin(E_FLT, b, a)); break;
          default: r = mkNot(uno); break;
        }
        if (p & 8) r = mkOr(r, uno);
      }
      f.regs[I.dst] = fromE(r);
      f.ip++;
      return;
    }
    case I_SELECT: {
      Val c = opv(f, I.a, 1);
      if (!c.e) { f.regs[I.dst] = opv(f, c.c & 1 ? I.b : I.c, I.w); f.ip++; return; }
      Val a = opv(f, I.b, I.w), b = opv(f, I.c, I.w);
      f.regs[I.dst] = fromE(mkIte(c.e, toE(a, I.w), toE(b, I.w)));
      f.ip++;
      return;
    }
    case I_ZEXT: {
      Val a = opv(f, I.a, I.w);
      if (!a.e && I.w2 <= 64) f.regs[I.dst] = a;
      else f.regs[I.dst] = fromE(mkZext(toE(a, I.w), I.w2));
      f.ip++;
      return;
    }
    case I_SEXT: {
      Val a = opv(f, I.a, I.w);
      if (!a.e && I.w2 <= 64) f.regs[I.dst] = cv((u64)sextVal(a.c, I.w) & (u64)maskOf(I.w2));
      else f.regs[I.dst] = fromE(mkSext(toE(a, I.w), I.w2));
      f.ip++;
      return;
    }
    case I_TRUNC: {
      Val a = opv(f, I.a, I.w);
      if (!a.e) f.regs[I.dst] = cv(a.c & (u64)maskOf(I.w2));
      else f.regs[I.dst] = fromE(mkExtract(a.e, I.w2 - 1, 0));
      f.ip++;
      return;
    }
    case I_COPY: f.regs[I.dst] = opv(f, I.a, I.w); f.ip++; return;
    case I_FNEG: {
      E a = toE(opv(f, I.a, I.w), I.w);
      f.regs[I.dst] = fromE(mkBin(E_XOR, a, mkConst((u128)1 << (I.w - 1), I.w)));
      f.ip++;
      return;
    }
    case I_FCAST: {
      Val a = opv(f, I.a, I.w);
      if (I.w == 80 || I.w2 == 80) {
        if (a.e && !isC(a.e)) {
          if (I.w2 == 80 && I.sub == E_FCVT) {  // opaque extension: keep the source bits, tagged, in the low part
            f.regs[I.dst].e = mkConcat(mkConst(0xF00D, 16), I.w == 64 ? a.e : mkFUn(E_FCVT, a.e, 64));
            f.ip++;
            return;
          }
          incompletePath("symbolic long double");
        }
        u128 bits = a.e ? a.e->val : a.c;
        long double ld = 0;
        if (I.w == 80) memcpy(&ld, &bits, 10);
        else if (I.sub == E_FCVT) {
          if (I.w == 64) { double x; u64 t = (u64)bits; memcpy(&x, &t, 8); ld = x; }
          else { float x; u32 t = (u32)bits; memcpy(&x, &t, 4); ld = x; }
        } else if (I.sub == E_SITOF) ld = (long double)(s64)sextVal(bits, I.w);
        else if (I.sub == E_UITOF) ld = (long double)(u64)bits;
        if (I.w2 == 80) { u128 r = 0; memcpy(&r, &ld, 10); f.regs[I.dst].e = mkConst(r, 80); }
        else if (I.sub == E_FCVT && I.w2 == 64) { double x = (double)ld; u64 t; memcpy(&t, &x, 8); f.regs[I.dst] = cv(t); }
        else incompletePath("long double conversion");
        f.ip++;
        return;
      }
      f.regs[I.dst] = fromE(mkFUn((Op)I.sub, toE(a, I.w), I.w2));
      f.ip++;
      return;
    }
    case I_GEP: {
      Val a = opv(f, I.a, 64);
      GepInfo& g = f.fn->geps[I.x];
      if (!a.e) {
        u64 x = a.c + (u64)g.off;
        E acc = nullptr;
        for (auto& t : g.terms) {
          Val v = opv(f, t.idx, t.w);
          if (!v.e) x += (u64)(s64)sextVal(v.c, t.w) * (u64)t.scale;
          else { E te = mkBin(E_MUL, mkSext(v.e, 64), mkConst((u64)t.scale, 64)); acc = acc ? mkBin(E_ADD, acc, te) : te; }
        }
        if (!acc) f.regs[I.dst] = cv(x);
        else f.regs[I.dst] = fromE(mkBin(E_ADD, acc, mkConst(x, 64)));
      } else {
        E r = mkBin(E_ADD, a.e, mkConst((u64)g.off, 64));
        for (auto& t : g.terms) {
          Val v = opv(f, t.idx, t.w);
          r = mkBin(E_ADD, r, mkBin(E_MUL, mkSext(toE(v, t.w), 64), mkConst((u64)t.scale, 64)));
        }
        f.regs[I.dst] = fromE(r);
      }
      f.ip++;
      return;
    }
    case I_LOAD: {
      Val p = opv(f, I.a, 64);
      if (I.sub) {
        u64 a = concretize(p, "atomic address");
        if (cfg("atomics", 1) && !schedPoint(PN_OTHER, 0)) return;
        bool r = S->raceOn; S->raceOn = false;
        Val v;
        try { v = load(cv(a + I.x), I.w); } catch (...) { S->raceOn = r; throw; }
        S->raceOn = r;
        if (I.sub >= 4) acquireFrom(a + I.x);
        f.regs[I.dst] = v;
        f.ip++;
        return;
      }
      if (I.x) p = p.e ? fromE(mkBin(E_ADD, p.e, mkConst(I.x, 64))) : cv(p.c + I.x);
      f.regs[I.dst] = load(p, I.w);
      f.ip++;
      return;
    }
    case I_STORE: {
      Val p = opv(f, I.a, 64);
      Val v = opv(f, I.b, I.w);
      if (I.sub) {
        u64 a = concretize(p, "atomic address");
        if (cfg("atomics", 1) && !schedPoint(PN_OTHER, 0)) return;
        bool r = S->raceOn; S->raceOn = false;
        try { store(cv(a + I.x), v, I.w); } catch (...) { S->raceOn = r; throw; }
        S->raceOn = r;
        if (I.sub >= 5) releaseTo(a + I.x, false); else S->sync.erase(a + I.x);
        f.ip++;
        return;
      }
      if (I.x) p = p.e ? fromE(mkBin(E_ADD, p.e, mkConst(I.x, 64))) : cv(p.c + I.x);
      store(p, v, I.w);
      f.ip++;
      return;
    }
    case I_ALLOCA: {
      AllocaInfo& ai = f.fn->allocas[I.x];
      u64 n = ai.size;
      if (ai.hasCount) n *= concretize(opv(f, ai.count, 64), "alloca");
      u32 id = alloc(n, OK_STACK, f.fn->name.c_str());
      f.allocas.push_back(id);
      f.regs[I.dst] = cv((u64)id << 32);
      f.ip++;
      return;
    }
    case I_CALL: stepCall(f, I); return;
    case I_RET: {
      CallInfo& ci = f.fn->calls[I.x];
      std::vector<Val> v;
      for (size_t i = 0; i < ci.args.size(); i++) v.push_back(opv(f, ci.args[i], ci.argW[i]));
      doRet(v);
      return;
    }
    case I_BR: edge(f, I.x); return;
    case I_CONDBR: {
      Val c = opv(f, I.a, 1);
      if (c.e && !isC(c.e) && mergeOn && region(f, I, c)) return;
      bool t = c.e ? decide(c.e) : (c.c & 1);
      edge(f, t ? I.x : (u32)I.b);
      return;
    }
    case I_SWITCH: {
      Val c = opv(f, I.a, I.w);
      SwitchInfo& s = f.fn->switches[I.x];
      if (!c.e) {
        for (auto& k : s.cases) if (k.first == c.c) { edge(f, k.second); return; }
        edge(f, s.def);
        return;
      }
      if (!isC(c.e) && mergeOn && region(f, I, c)) return;
      // group by target block
      std::vector<std::pair<u32, E>> groups;
      for (auto& k : s.cases) {
        E q = mkEq(c.e, mkConst(k.first, I.w));
        bool found = false;
        for (auto& g : groups)
          if (f.fn->edges[g.first].target == f.fn->edges[k.second].target && f.fn->edges[k.second].copies.empty()) {
            g.second = mkOr(g.second, q);
            found = true;
            break;
          }
        if (!found) groups.push_back({k.second, q});
      }
      for (auto& g : groups) if (decide(g.second)) { edge(f, g.first); return; }
      edge(f, s.def);
      return;
    }
    case I_UNREACHABLE: violation("undefined-behaviour", "unreachable code executed in " + where());
    case I_FENCE: f.ip++; return;
    case I_RMW: {
      u64 a = concretize(opv(f, I.a, 64), "atomic address");
      if (cfg("atomics", 1) && !schedPoint(PN_OTHER, 0)) return;
      Val v = opv(f, I.b, I.w);
      bool r = S->raceOn; S->raceOn = false;
      Val old;
      try {
        old = load(cv(a), I.w);
        E o = toE(old, I.w), x = toE(v, I.w), nv;
        switch (I.x) {
          case 0: nv = x; break;
          case 1: nv = mkBin(E_ADD, o, x); break;
          case 2: nv = mkBin(E_SUB, o, x); break;
          case 3: nv = mkBin(E_AND, o, x); break;
          case 4: nv = mkNot(mkBin(E_AND, o, x)); break;
          case 5: nv = mkBin(E_OR, o, x); break;
          case 6: nv = mkBin(E_XOR, o, x); break;
          default: incompletePath("atomicrmw operation");
        }
        store(cv(a), fromE(nv), I.w);
      } catch (...) { S->raceOn = r; throw; }
      S->raceOn = r;
      if (I.sub == 4 || I.sub >= 6) acquireFrom(a);
      if (I.sub >= 5) releaseTo(a, true);
      f.regs[I.dst] = old;
      f.ip++;
      return;
    }
    case I_CMPXCHG: {
      u64 a = concretize(opv(f, I.a, 64), "atomic address");
      if (cfg("atomics", 1) && !schedPoint(PN_OTHER, 0)) return;
      Val c = opv(f, I.b, I.w), v = opv(f, I.c, I.w);
      bool r = S->raceOn; S->raceOn = false;
      try {
        Val old = load(cv(a), I.w);
        bool eq = decide(mkEq(toE(old, I.w), toE(c, I.w)));
        if (eq) store(cv(a), v, I.w);
        S->raceOn = r;
        if (I.sub == 4 || I.sub >= 6) acquireFrom(a);
        if (eq && I.sub >= 5) releaseTo(a, true);
        f.regs[I.dst] = old;
        f.regs[I.dst + 1] = cv(eq);
      } catch (...) { S->raceOn = r; throw; }
      f.ip++;
      return;
    }
    case I_UNSUPPORTED: incompletePath(std::string("unsupported instruction ") + (I.file ? I.file : ""));
  }
}

void Exec::stepCall(Frame& f, Inst& I) {
  CallInfo& ci = f.fn->calls[I.x];
  std::vector<Val> args;
  args.reserve(ci.args.size());
  for (size_t i = 0; i < ci.args.size(); i++) args.push_back(opv(f, ci.args[i], ci.argW[i]));
  Builtin b = ci.builtin;
  Fn* fn = ci.direct;
  if (!b && !fn) {
    if (ci.name.empty() || ci.name.rfind("llvm.", 0) != 0) {
      u64 a = concretize(opv(f, ci.callee, 64), "function pointer");
      u32 id = (u32)(a >> 32);
      if (a < 0x1000) violation("null-dereference", "call through null function pointer in " + where());
      if ((u32)a || id >= P.fns.size() || !P.fns[id]) violation("wild-pointer", "call through invalid function pointer in " + where());
      fn = P.fns[id];
      b = fn->builtin;
    } else {
      incompletePath("intrinsic " + ci.name);
    }
  }
  if (b) {
    std::vector<Val> ret(ci.retW.size());
    u32 ip = f.ip;
    (void)ip;
    u32 tid = S->cur;
    size_t depth = S->th[tid].frames.size();
    curCall = &ci;
    BRes r = b(*this, ci, args, ret);
    if (r == B_BLOCK) return;
    Frame& f2 = S->th[tid].frames[depth - 1];
    if (r == B_FRAME) {
      f2.ip++;
      u32 save = S->cur;
      S->cur = tid;
      pushFrame(pendFn, pendArgs, pendRet && !ci.retW.empty() ? I.dst : -1, pendRet ? (u32)ci.retW.size() : 0);
      pendRet = false;
      S->cur = save;
      return;
    }
    for (size_t i = 0; i < ret.size(); i++) f2.regs[I.dst + i] = ret[i];
    f2.ip++;
    return;
  }
  if (fn->f == nullptr) incompletePath("bad call");
  lowerFn(fn);
  if (fn->code.empty()) incompletePath("call of undefined function " + demangle(fn->name));
  f.ip++;
  pushFrame(fn, args, ci.retW.empty() ? -1 : I.dst, (u32)ci.retW.size());
}

void Exec::finishPath() {
  for (auto& r : S->reached) reached.insert(r);
}

void Exec::run(State* s) {
  S = s;
  int why = 0;
  try {
    if (deadline && nowS() > deadline) { stop = true; incompletePath("time limit"); }
    while (true) {
      for (int i = 0; i < 4096; i++) step();
      if (S->steps > maxSteps) violation("hang", "path exceeds the step limit");
      if (deadline && nowS() > deadline) { stop = true; incompletePath("time limit"); }
    }
  } catch (PathEnd& e) {
    why = e.why;
  }
  if (why == 0) for (auto& r : S->reached) reached.insert(r);
  if (why == 0) {
    paths++;
    // samples for validating the encoding against the real build
    pathSeed = pathSeed * 6364136223846793005ULL + 1442695040888963407ULL;
    bool take = samples.size() < sampleMax;
    size_t at = samples.size();
    if (!take && sampleMax) {
      u64 k = (pathSeed >> 33) % paths;
      if (k < sampleMax) { take = true; at = (size_t)k; }
    }
    if (take) {
      // prefer a random assignment that follows this path over the solver's
      std::vector<u32> ss;
      for (auto& in : S->inputs) if (in.e) { auto& q = symsOf(in.e); ss.insert(ss.end(), q.begin(), q.end()); }
      for (int att = 0; att < 12 && !ss.empty(); att++) {
        Model m = S->model;
        for (u32 sid : ss) {
          pathSeed = pathSeed * 6364136223846793005ULL + 1442695040888963407ULL;
          if (att >= 4 && ((pathSeed >> 60) & 3)) continue;
          u64 v = (pathSeed >> 11) ^ (pathSeed << 50);
          u64 mx = (u64)g_syms[sid].expr->maxv;
          m.set(sid, mx == ~0ull ? v : v % (mx + 1));
        }
        bool ok = true;
        for (E c : S->pc) if (!evalExpr(c, m)) { ok = false; break; }
        if (ok) { S->model = m; break; }
      }
      std::string o = "IN";
      char buf[64];
      for (auto& in : S->inputs) {
        u64 v = in.e ? (u64)evalExpr(in.e, S->model) : in.v;
        snprintf(buf, sizeof buf, " %d:%llx", in.kind, (unsigned long long)v);
        o += buf;
      }
      o += "|OUT";
      for (auto& ob : S->obs) {
        o += " " + ob.name + "=";
        if (ob.w) {
          bool un = false;
          if (ob.bytes[0].e) for (u32 sy : symsOf(ob.bytes[0].e)) if (g_syms[sy].name == kUninit || g_syms[sy].name == "opaque") un = true;
          if (un) o += "?";
          else { snprintf(buf, sizeof buf, "%llx", (unsigned long long)evalV(ob.bytes[0])); o += buf; }
        } else
          for (auto& b : ob.bytes) {
            bool un = false;
            if (b.e) for (u32 sy : symsOf(b.e)) if (g_syms[sy].name == kUninit || g_syms[sy].name == "opaque") un = true;
            if (un) o += "??";
            else { snprintf(buf, sizeof buf, "%02x", (unsigned)evalV(b)); o += buf; }
          }
      }
      if (at == samples.size()) samples.push_back(o); else samples[at] = o;
    }
  } else if (why == 2) infeasible++;
  else if (why == 3) incomplete++;
  else if (why == 4) merged++;
  delete S;
  S = nullptr;
}
