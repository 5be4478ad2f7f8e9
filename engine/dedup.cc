// Recognises schedule points whose whole remaining behaviour has been explored already.
// Two states are the same when they agree, up to a renaming of heap and stack objects, in: memory reachable from
// globals, thread stacks and thread-local storage, all registers, thread states, time, the schedule budgets that are
// used up, the heap balance and (with race detection) the happens-before relation. Schedule symbols are not part of it,
// nor are symbols no reachable value depends on.
#include "exec.h"
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

static const u64 kSlots = 1ull << 24;
static u64* g_seen;
void dedupInit() {
  void* p = mmap(nullptr, kSlots * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_seen = p == MAP_FAILED ? nullptr : (u64*)p;
}
static bool insertSeen(u64 a, u64 b) {  // true: was there
  if (!g_seen) return false;
  if (!a) a = 1;
  for (u64 i = 0; i < 64; i++) {
    u64* s = &g_seen[(b + i) & (kSlots - 1)];
    u64 v = __atomic_load_n(s, __ATOMIC_RELAXED);
    if (v == a) return true;
    if (v == 0) {
      if (__atomic_compare_exchange_n(s, &v, a, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false;
      if (v == a) return true;
    }
  }
  return false;
}

struct Hasher {
  u64 a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full;
  void add(u64 x) {
    a = (a ^ x) * 0xff51afd7ed558ccdull; a ^= a >> 32;
    b = (b + x) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
  }
};

// The same in every worker process: expression and symbol numbers are not.
static u64 stableHash(E e) {
  static std::unordered_map<E, u64> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Hasher h;
  h.add(e->op); h.add(e->aux); h.add(e->width);
  if (e->op == E_SYM) {
    const SymInfo& s = g_syms[e->lo];
    h.add(s.pathIdx);
    for (char c : s.name) h.add((u8)c);
    h.add((u64)e->val);
  } else {
    h.add(e->lo);
    if (isC(e)) { h.add((u64)e->val); h.add((u64)(e->val >> 64)); }
    for (E k : e->k) if (k) h.add(stableHash(k));
  }
  return memo[e] = h.a;
}

bool Exec::seenState(bool forced) {
  State* s = S;
  Hasher h;
  std::unordered_map<u32, u32> canon;   // object -> number in order of discovery
  std::vector<u32> order;
  std::vector<E> exprs;
  auto isObj = [&](u64 v) { u32 id = (u32)(v >> 32); return id >= FN_BASE && id < s->nextObj && s->mem.get(id); };
  auto word = [&](u64 v) {
    u32 id = (u32)(v >> 32);
    if (id < g_nextObj || !isObj(v)) { h.add(v); return; }   // globals keep their number
    Obj* o = s->mem.get(id);
    if (o->kind == OK_FREED) { h.add(0xdeadull); return; }
    auto it = canon.emplace(id, (u32)order.size());
    if (it.second) order.push_back(id);
    h.add(0xabcd0000ull + it.first->second);
    h.add((u32)v);
  };
  auto val = [&](const Val& v) {
    if (v.e == UNDEF_MARK) h.add(0x77);
    else if (v.e && !isC(v.e)) { exprs.push_back(v.e); h.add(stableHash(v.e)); }
    else if (v.e) { h.add((u64)v.e->val); h.add((u64)(v.e->val >> 64)); }
    else word(v.c);
  };
  auto object = [&](Obj* o) {
    h.add(o->size); h.add(o->kind);
    u32 i = 0;
    if (!o->special) {
      for (; i + 8 <= o->size; i += 8) { u64 w; memcpy(&w, &o->data[i], 8); word(w); }
      for (; i < o->size; i++) h.add(o->data[i]);
      return;
    }
    while (i < o->size) {
      if (i % 8 == 0 && i + 8 <= o->size) {
        bool plain = true;
        for (u32 k = 0; k < 8; k++) if (o->st[i + k]) plain = false;
        if (plain) { u64 w; memcpy(&w, &o->data[i], 8); word(w); i += 8; continue; }
      }
      if (o->st[i] == 0) h.add(o->data[i]);
      else if (o->st[i] == 1) h.add(0x1111);
      else { E e = o->sym[i].e; exprs.push_back(e); h.add(stableHash(e)); h.add(o->sym[i].idx); }
      i++;
    }
  };

  h.add(forced); h.add(s->cur); val(s->now); h.add(s->preempts); h.add(s->timeouts); h.add(s->spurious);
  h.add(s->heapLive); h.add(s->expectTrap); h.add(s->raceOn); h.add(s->armed);
  for (auto& c : s->cfg) h.add(c.second);
  for (auto& t : s->th) {
    h.add(t.status);
    if (t.status == T_DONE) { h.add(t.joined); continue; }
    h.add(t.pend); h.add(t.phase); h.add(t.timed); val(t.deadline); h.add(t.timedOut); h.add(t.joinTid); h.add(t.detached);
    word(t.pendAddr); word(t.cv); word(t.mtx);
    h.add(t.frames.size());
    for (auto& f : t.frames) {
      h.add(f.fn->id); h.add(f.ip); h.add((u64)f.retDst);
      for (auto& v : f.regs) val(v);
      for (u32 a : f.allocas) word((u64)a << 32);
    }
    for (u32 id : t.tls) word((u64)id << 32);
    for (auto& d : t.dtors) { h.add(d.first); word(d.second); }
  }
  for (auto& a : s->atexits) { h.add(a.first); word(a.second); }
  if (!s->opaque.empty()) { h.add(s->id); h.add((u64)getpid()); }   // never the same: only in harnesses without threads
  for (auto& u : s->undefs) { h.add(u.first.first); h.add((u64)u.first.second); h.add(stableHash(u.second)); exprs.push_back(u.second); }
  std::vector<u32> globals;
  for (auto& g : g_initialObjs) {
    Obj* o = s->mem.get(g.first);
    if (!o || (o == g.second && !o->race) || o->ro) continue;
    globals.push_back(g.first);
    h.add(g.first);
    object(o);
  }
  for (size_t i = 0; i < order.size(); i++) object(s->mem.get(order[i]));

  if (!exprs.empty()) {   // what is known about the symbols that matter
    std::set<u32> syms;
    for (E e : exprs) for (u32 y : symsOf(e)) syms.insert(y);
    std::vector<u8> in(s->pc.size(), 0);
    for (bool more = true; more;) {
      more = false;
      for (size_t i = 0; i < s->pc.size(); i++) {
        if (in[i]) continue;
        for (u32 y : symsOf(s->pc[i])) if (syms.count(y)) in[i] = 1;
        if (in[i]) { more = true; for (u32 y : symsOf(s->pc[i])) syms.insert(y); }
      }
    }
    for (size_t i = 0; i < in.size(); i++) if (in[i]) h.add(stableHash(s->pc[i]));
  }

  if (s->raceOn) {
    // Clocks are compared only with each other, one component at a time: keep their order, not their values; drop what every thread has already seen.
    size_t n = s->th.size();
    auto at = [&](const std::vector<u32>& v, size_t t) { return t < v.size() ? v[t] : 0u; };
    std::vector<u32> lowest(n, ~0u);   // smallest view of component t among the live threads other than t
    for (size_t t = 0; t < n; t++)
      for (size_t u = 0; u < n; u++)
        if (u != t && s->th[u].status != T_DONE) lowest[t] = std::min(lowest[t], at(s->th[u].vc, t));
    std::vector<std::vector<u32>> vals(n);
    auto want = [&](size_t t, u32 c) { return t < n && lowest[t] != ~0u && c > lowest[t]; };
    auto note = [&](size_t t, u32 c) { vals[t].push_back(c); };
    struct R { u64 obj; u32 g; size_t t; u32 c; u8 mask; bool wr; };
    std::vector<R> recs;
    auto objRecs = [&](u64 key, Obj* o) {
      if (!o->race) return;
      for (auto& q : *o->race) {
        const RaceRec& r = q.second;
        if (r.wTid != ~0u && r.wMask && want(r.wTid, r.wClk)) { recs.push_back({key, q.first, r.wTid, r.wClk, r.wMask, true}); note(r.wTid, r.wClk); }
        for (u32 t = 0; t < 6 && t < n; t++)
          if (r.rMask[t] && want(t, r.rClk[t])) { recs.push_back({key, q.first, t, r.rClk[t], r.rMask[t], false}); note(t, r.rClk[t]); }
      }
    };
    for (u32 g : globals) objRecs(g, s->mem.get(g));
    for (size_t i = 0; i < order.size(); i++) objRecs((u64)i << 32, s->mem.get(order[i]));
    struct Q { u64 key, off; const std::vector<u32>* v; };
    std::vector<Q> qs;
    for (size_t u = 0; u < n; u++) {
      auto& t = s->th[u];
      if (t.status != T_DONE) { qs.push_back({0x1000 + u, 0, &t.vc}); for (size_t c = 0; c < n; c++) note(c, at(t.vc, c)); }
      else if (!t.joined && !t.detached) { qs.push_back({0x2000 + u, 1, &t.vc}); }
    }
    std::vector<std::pair<std::pair<u64, u64>, const std::vector<u32>*>> sy;
    for (auto& q : s->sync) {
      u32 id = (u32)(q.first >> 32);
      u64 key;
      if (id < g_nextObj) key = id;
      else {
        auto it = canon.find(id);
        if (it == canon.end()) continue;
        key = (u64)it->second << 32;
      }
      sy.push_back({{key, (u32)q.first}, &q.second});
    }
    std::sort(sy.begin(), sy.end());
    for (auto& q : sy) qs.push_back({q.first.first, q.first.second + 2, q.second});
    for (auto& q : qs) for (size_t c = 0; c < n; c++) if (want(c, at(*q.v, c))) note(c, at(*q.v, c));
    for (auto& v : vals) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    auto rank = [&](size_t t, u32 c) { return (u64)(std::lower_bound(vals[t].begin(), vals[t].end(), c) - vals[t].begin()); };
    for (auto& r : recs) { h.add(r.obj); h.add(r.g); h.add(r.t); h.add(rank(r.t, r.c)); h.add(r.mask * 2 + r.wr); }
    for (auto& q : qs) {
      h.add(q.key); h.add(q.off);
      bool live = q.off == 0;
      for (size_t c = 0; c < n; c++) { u32 x = at(*q.v, c); h.add(live || want(c, x) ? 1 + rank(c, x) : 0); }
    }
  }

  if (insertSeen(h.a, h.b)) {
    for (auto k : s->schedPath) if (k == h.a) return violation("hang", "the threads can go on for ever without any progress"), true;
    return true;
  }
  s->schedPath.push_back(h.a);
  return false;
}
