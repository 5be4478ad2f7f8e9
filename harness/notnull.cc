// N01, N02: NotNull and Nullable over arbitrary pointer values.
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <utility>
#include "rst/not_null/not_null.h"
#include "vf.h"

using rst::NotNull;
using rst::Nullable;

namespace {
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
#ifdef NDEBUG
  (void)l; (void)f;
  vf_stop();  // a release build promises nothing here
#endif
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
int* anyPtr(const char* n) { return reinterpret_cast<int*>(vf_sym(64, n) & ~uint64_t{3}); }

template <class T> struct Slot {
  alignas(T) char mem[sizeof(T)];
  bool alive = false, checked = false, known = false;
  int* val = nullptr;
  T& o() { return *std::launder(reinterpret_cast<T*>(mem)); }
  const T& c() { return o(); }
  template <class S> void make(S&& s) { new (mem) T(std::forward<S>(s)); alive = true; }
  template <class S> void put(S&& s) { if (alive) o() = std::forward<S>(s); else make(std::forward<S>(s)); }
};
// With param 1 set a wrapper starts in any state, chosen when it is first touched: the sequence that follows is then
// explored from every state a wrapper can be in.
template <class P> void ensure(Slot<NotNull<P>>& s) {
  if (s.known) return;
  s.known = true;
  if (!vf_param(1, 0) || !vf_flip("alive")) return;
  int* p = anyPtr("p0");
  vf_assume(p != nullptr);
  s.make(static_cast<P>(p));
  s.val = p;
}
template <class P> void ensure(Slot<Nullable<P>>& s) {
  if (s.known) return;
  s.known = true;
  if (!vf_param(1, 0)) return;
  const uint64_t k = vf_choose(3, "state");
  if (k == 0) return;
  int* p = anyPtr("p0");
  s.make(static_cast<P>(p));
  s.val = p;
  if (k == 2) { (void)(s.c() == nullptr); s.checked = true; }
}
const char kNull[] = "N01: storing null aborts";
const char kUnex[] = "N02: using a pointer that was not compared with null aborts";
const char kDeref[] = "N02: dereferencing null aborts";
}  // namespace

// Sequences over two NotNull<const int*>, one NotNull<int*> and one Nullable<int*>; every pointer value is arbitrary.
VF_ENTRY(n01_raw) {
  const uint64_t steps = vf_param(0, 3);
  Slot<NotNull<const int*>> a[2];
  Slot<NotNull<int*>> m;
  Slot<Nullable<int*>> u;
  auto check = [&] {
    for (auto& s : a) if (s.alive) vf_assert(s.c().get() == s.val && s.val != nullptr, "N01: keeps exactly the pointer it was given");
    if (m.alive) vf_assert(m.c().get() == m.val && m.val != nullptr, "N01: keeps exactly the pointer it was given");
    if (u.alive) vf_assert(u.c().get() == u.val, "N02: keeps exactly the pointer it was given");
  };
  for (uint64_t i = 0; i < steps; i++) {
    const uint64_t op = vf_choose(12, "op");
    auto& x = a[i % 2];
    auto& y = a[1 - i % 2];
    ensure(x);
    if (op == 4) ensure(y);
    if (op == 1 || op == 3 || op == 8 || op == 9) ensure(m);
    if (op >= 5 && op != 10) ensure(u);
    if (op == 0) {
      int* p = anyPtr("p");
      if (!p) mustAbort(kNull, [&] { x.put((const int*)p); });
      x.put((const int*)p); x.val = p;
    } else if (op == 1) {
      int* p = anyPtr("p");
      if (!p) mustAbort(kNull, [&] { m.put(p); });
      m.put(p); m.val = p;
    } else if (op == 2) {
      int* p = anyPtr("p");   // a pointer of another type that converts
      if (!p) mustAbort(kNull, [&] { x.put(p); });
      x.put(p); x.val = p;
    } else if (op == 3) {
      if (!m.alive) vf_stop();
      if (vf_flip("move")) x.put(std::move(m.o())); else x.put(m.c());
      x.val = m.val;
    } else if (op == 4) {
      if (!y.alive) vf_stop();
      if (vf_flip("move")) x.put(std::move(y.o())); else x.put(y.c());
      x.val = y.val;
    } else if (op == 5) {
      int* p = anyPtr("p");
      u.put(p); u.val = p; u.checked = false;
    } else if (op == 6) {
      if (!u.alive) vf_stop();
      const bool null = vf_flip("side") ? u.c() == nullptr : !(nullptr != u.c());
      vf_assert(null == (u.val == nullptr), "N02: comparison with null agrees with the raw pointer");
      u.checked = true;
    } else if (op == 7 || op == 8) {
      if (!u.alive) vf_stop();
      const bool mv = vf_flip("move");
      auto go = [&] {
        if (op == 7) { if (mv) x.put(std::move(u.o())); else x.put(u.c()); }
        else { if (mv) m.put(std::move(u.o())); else m.put(u.c()); }
      };
      if (!u.checked) mustAbort(kUnex, go);
      if (!u.val) mustAbort(kNull, go);
      go();
      (op == 7 ? x.val : m.val) = u.val;
    } else if (op == 9) {
      if (!m.alive) vf_stop();
      if (vf_flip("move")) u.put(std::move(m.o())); else u.put(m.c());
      u.val = m.val; u.checked = false;
    } else if (op == 10) {
      if (!x.alive) vf_stop();
      const uint64_t k = vf_range(0, 1000, "k");
      vf_assert(&x.c()[k] == x.val + k, "N01: indexing reaches exactly that element");
      vf_assert(&*x.c() == x.val && x.c().operator->() == x.val, "N01: dereference reaches exactly that object");
    } else {
      if (!u.alive) vf_stop();
      const uint64_t how = vf_choose(3, "how");
      const uint64_t k = vf_range(0, 1000, "k");
      auto go = [&] {
        if (how == 0) return (const int*)&*u.c();
        if (how == 1) return (const int*)u.c().operator->();
        return (const int*)&u.c()[k];
      };
      if (!u.checked) mustAbort(kUnex, [&] { (void)go(); });
      if (!u.val) mustAbort(kDeref, [&] { (void)go(); });
      vf_assert(go() == u.val + (how == 2 ? k : 0), "N02: access yields exactly the stored pointer");
    }
    check();
  }
  vf_reach("n01");
}

// Sequences over two Nullable<int*> and one Nullable<const int*>.
VF_ENTRY(n02_raw) {
  const uint64_t steps = vf_param(0, 3);
  Slot<Nullable<int*>> a[2];
  Slot<Nullable<const int*>> c;
  for (uint64_t i = 0; i < steps; i++) {
    const uint64_t op = vf_choose(12, "op");
    auto& x = a[vf_choose(2, "x")];
    auto& y = &x == a ? a[1] : a[0];
    if (op != 6 && op != 9) ensure(x);
    if (op == 2 || op == 3 || op == 7) ensure(y);
    if (op == 3 || op == 6 || op == 8 || op == 9) ensure(c);
    if (op == 0) { int* p = anyPtr("p"); x.put(p); x.val = p; x.checked = false; }
    else if (op == 1) { if (vf_flip("how")) x.put(nullptr); else { if (x.alive) vf_stop(); new (x.mem) Nullable<int*>(); x.alive = true; } x.val = nullptr; x.checked = false; }
    else if (op == 2) {
      if (!y.alive) vf_stop();
      const bool fresh = !x.alive;
      if (vf_flip("move")) x.put(std::move(y.o())); else x.put(y.c());
      x.val = y.val; x.checked = fresh && y.checked;   // a copy starts with its source's state; an assigned object starts unexamined
    } else if (op == 3) {
      if (!y.alive) vf_stop();
      if (vf_flip("move")) c.put(std::move(y.o())); else c.put(y.c());
      c.val = y.val; c.checked = false;
    } else if (op == 4) {
      int* p = anyPtr("p");
      vf_assume(p != nullptr);
      if (vf_flip("move")) x.put(NotNull<int*>(p)); else { const NotNull<int*> n(p); x.put(n); }
      x.val = p; x.checked = false;
    } else if (op == 5) {
      if (!x.alive) vf_stop();
      const uint64_t how = vf_choose(4, "how");
      const bool r = how == 0 ? x.c() == nullptr : how == 1 ? nullptr == x.c() : how == 2 ? !(x.c() != nullptr) : !(nullptr != x.c());
      vf_assert(r == (x.val == nullptr), "N02: comparison with null agrees with the raw pointer");
      x.checked = true;
    } else if (op == 6) {
      if (!c.alive) vf_stop();
      vf_assert((c.c() == nullptr) == (c.val == nullptr), "N02: comparison with null agrees with the raw pointer");
      c.checked = true;
    } else if (op == 7) {
      if (!x.alive || !y.alive) vf_stop();
      vf_assert((x.c() == y.c()) == (x.val == y.val), "N02: equality agrees with the raw pointers");
      vf_assert((x.c() != y.c()) == (x.val != y.val), "N02: inequality agrees with the raw pointers");
      vf_assert((x.c() < y.c()) == ((uint64_t)x.val < (uint64_t)y.val), "N02: order agrees with the raw pointers");
      vf_assert(std::hash<Nullable<int*>>()(x.c()) == std::hash<int*>()(x.val), "N02: hash agrees with the raw pointer");
    } else if (op == 8) {
      if (!x.alive) vf_stop();
      int* p = anyPtr("q");
      vf_assert((x.c() == p) == (x.val == p) && (p == x.c()) == (x.val == p), "N02: comparison with a raw pointer agrees");
      vf_assert((x.c() != p) == (x.val != p) && (p != x.c()) == (x.val != p), "N02: comparison with a raw pointer agrees");
      if (c.alive) vf_assert((x.c() == c.c()) == (x.val == c.val) && (c.c() != x.c()) == (x.val != c.val), "N02: comparison across types agrees");
    } else if (op == 9) {
      if (!c.alive) vf_stop();
      if (!c.checked) mustAbort(kUnex, [&] { (void)&*c.c(); });
      if (!c.val) mustAbort(kDeref, [&] { (void)&*c.c(); });
      vf_assert(&*c.c() == c.val, "N02: access yields exactly the stored pointer");
    } else if (op == 10) {
      if (!x.alive) vf_stop();
      auto go = [&] { NotNull<int*> n(x.c()); return n.get(); };
      if (!x.checked) mustAbort(kUnex, [&] { (void)go(); });
      if (!x.val) mustAbort(kNull, [&] { (void)go(); });
      vf_assert(go() == x.val, "N02: conversion to non-null keeps the pointer");
    } else {
      if (!x.alive) vf_stop();
      const uint64_t how = vf_choose(3, "how");
      auto go = [&] {
        if (how == 0) return &*x.c();
        if (how == 1) return x.c().operator->();
        return &x.c()[1] - 1;
      };
      if (!x.checked) mustAbort(kUnex, [&] { (void)go(); });
      if (!x.val) mustAbort(kDeref, [&] { (void)go(); });
      vf_assert(go() == x.val, "N02: access yields exactly the stored pointer");
    }
    for (auto& s : a) if (s.alive) vf_assert(s.c().get() == s.val, "N02: keeps exactly the pointer it was given");
    if (c.alive) vf_assert(c.c().get() == c.val, "N02: keeps exactly the pointer it was given");
  }
  vf_reach("n02");
}

// NotNull comparisons over arbitrary pointers.
VF_ENTRY(n01_compare) {
  int *p = anyPtr("p"), *q = anyPtr("q"), *r = anyPtr("r");
  vf_assume(p && q);
  const NotNull<int*> a(p);
  const NotNull<const int*> b(q);
  const NotNull<int*> d(q);
  const Nullable<int*> n(r);
  vf_assert((a == b) == (p == q) && (a != b) == (p != q), "N01: equality agrees with the raw pointers");
  vf_assert((a < b) == ((uint64_t)p < (uint64_t)q), "N01: order agrees with the raw pointers");
  vf_assert((a == d) == (p == q) && (a < d) == ((uint64_t)p < (uint64_t)q), "N01: comparison agrees with the raw pointers");
  vf_assert((a == r) == (p == r) && (r == a) == (p == r) && (a != r) == (p != r) && (r != a) == (p != r), "N01: comparison with a raw pointer agrees");
  vf_assert((a == n) == (p == r) && (n == a) == (p == r) && (a != n) == (p != r) && (n != a) == (p != r), "N01: comparison with a nullable agrees");
  vf_assert(std::hash<NotNull<int*>>()(a) == std::hash<int*>()(p), "N01: hash agrees with the raw pointer");
  vf_observe("eq", a == b);
  vf_reach("n01");
}

// ---------------------------------------------------------------- smart pointers
namespace {
int g_live;
struct Base { int v = 0; Base() { g_live++; } virtual ~Base() { g_live--; } };
struct Side { long s = 5; virtual ~Side() = default; };
struct Derived : Side, Base { int w = 1; };

template <template <class...> class P> struct Smart;
template <class T> using UP = std::unique_ptr<T>;
}  // namespace

// NotNull and Nullable over std::unique_ptr: ownership follows the wrapper, exactly one free.
VF_ENTRY(n01_unique) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t src = vf_choose(6, "src");
    const bool null = vf_flip("null");
    std::unique_ptr<Base> p(null ? nullptr : new Base);
    std::unique_ptr<Derived> d(null ? nullptr : new Derived);
    Base* raw = p.get();
    Derived* rawd = d.get();
    const int v = (int)vf_sym(32, "v");
    if (raw) { raw->v = v; rawd->v = v + 0u; }
    NotNull<std::unique_ptr<Base>> t(std::make_unique<Base>());
    const bool assign = vf_flip("assign");
    Base* want = nullptr;
    if (src == 0) {
      auto go = [&] { if (assign) t = std::move(p); else { NotNull<std::unique_ptr<Base>> n(std::move(p)); t = std::move(n); } };
      if (null) mustAbort(kNull, go);
      go();
      want = raw;
    } else if (src == 1) {
      auto go = [&] { if (assign) t = std::move(d); else { NotNull<std::unique_ptr<Base>> n(std::move(d)); t = std::move(n); } };
      if (null) mustAbort(kNull, go);
      go();
      want = rawd;
    } else if (src == 2) {
      if (null) vf_stop();
      NotNull<std::unique_ptr<Derived>> n(std::move(d));
      vf_assert(n.get() == rawd && &*n == rawd && n.operator->() == rawd, "N01: keeps exactly the pointer it was given");
      if (assign) t = std::move(n); else { NotNull<std::unique_ptr<Base>> n2(std::move(n)); t = std::move(n2); }
      want = rawd;
    } else if (src == 3 || src == 4) {
      Nullable<std::unique_ptr<Derived>> n;
      if (vf_flip("late")) n = std::move(d); else { Nullable<std::unique_ptr<Derived>> n1(std::move(d)); n = std::move(n1); }
      vf_assert(n.get() == rawd, "N02: keeps exactly the pointer it was given");
      auto use = [&] { return vf_flip("arrow") ? n.operator->() : &*n; };
      auto go = [&] { if (assign) t = std::move(n); else { NotNull<std::unique_ptr<Base>> n2(std::move(n)); t = std::move(n2); } };
      if (src == 3) { if (vf_flip("use")) mustAbort(kUnex, [&] { (void)use(); }); mustAbort(kUnex, go); }
      vf_assert((n == nullptr) == null, "N02: comparison with null agrees with the raw pointer");
      if (null) { if (vf_flip("use")) mustAbort(kDeref, [&] { (void)use(); }); mustAbort(kNull, go); }
      vf_assert(use() == rawd, "N02: access yields exactly the stored pointer");
      go();
      want = rawd;
    } else {
      if (null) vf_stop();
      NotNull<std::unique_ptr<Derived>> n0(std::move(d));
      Nullable<std::unique_ptr<Base>> n(std::move(n0));
      vf_assert(n.get() == rawd, "N02: a conversion keeps the pointer");
      if (vf_flip("taken")) { std::unique_ptr<Base> out = std::move(n).Take(); vf_assert(out.get() == rawd && n.get() == nullptr, "N02: taking hands over the pointer"); t = std::move(out); }
      else if (vf_flip("nulled")) { n = nullptr; vf_assert(g_live == 2 && n.get() == nullptr, "N02: assigning null frees the object"); d = std::make_unique<Derived>(); d->v = v; rawd = d.get(); t = std::move(d); }
      else { vf_assert(n != nullptr, "N02: comparison with null agrees with the raw pointer"); t = std::move(n); }
      want = rawd;
    }
    vf_assert(t.get() == want && &*t == want && t.operator->() == want, "N01: keeps exactly the pointer it was given");
    vf_assert(t->v == v, "N01: reaches exactly that object");
    if (vf_flip("take")) {
      std::unique_ptr<Base> out = std::move(t).Take();
      vf_assert(out.get() == want && out->v == v, "N01: taking hands over the pointer");
      // What is left holds null: no wrapper may take it over.
      const uint64_t again = vf_choose(4, "again");
      using N = NotNull<std::unique_ptr<Base>>;
      if (again == 1) mustAbort(kNull, [&] { N n(std::move(t)); });
      if (again == 2) mustAbort(kNull, [&] { N n(std::make_unique<Base>()); n = std::move(t); });
      if (again == 3) {
        NotNull<std::unique_ptr<Derived>> from(std::make_unique<Derived>());
        std::unique_ptr<Derived> gone = std::move(from).Take();
        if (vf_flip("assign2")) mustAbort(kNull, [&] { N n(std::make_unique<Base>()); n = std::move(from); });
        mustAbort(kNull, [&] { N n(std::move(from)); });
      }
    }
    vf_observe("v", (uint32_t)v);
  }
  vf_assert(g_live == 0 && vf_heap_live() == heap, "N01: every owned object is freed exactly once");
  vf_reach("n01");
}

VF_ENTRY(n01_shared) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t src = vf_choose(5, "src");
    const bool null = vf_flip("null");
    const int v = (int)vf_sym(32, "v");
    std::shared_ptr<Derived> d = null ? nullptr : std::make_shared<Derived>();
    Derived* raw = d.get();
    if (d) d->v = v;
    NotNull<std::shared_ptr<Base>> t(std::make_shared<Base>());
    const bool assign = vf_flip("assign");
    if (src == 0) {
      auto go = [&] { if (assign) t = d; else { NotNull<std::shared_ptr<Base>> n(d); t = n; } };
      if (null) mustAbort(kNull, go);
      go();
      vf_assert(d.use_count() == 2, "N01: copies share ownership");
    } else if (src == 1) {
      auto go = [&] { if (assign) t = std::move(d); else { NotNull<std::shared_ptr<Base>> n(std::move(d)); t = std::move(n); } };
      if (null) mustAbort(kNull, go);
      go();
      vf_assert(d == nullptr, "N01: moving hands over ownership");
    } else if (src == 2) {
      if (null) vf_stop();
      const NotNull<std::shared_ptr<Derived>> n(d);
      const NotNull<std::shared_ptr<Derived>> n2(n);
      vf_assert(d.use_count() == 3 && n2.get() == raw, "N01: copies share ownership");
      if (assign) t = n2; else { NotNull<std::shared_ptr<Base>> b(n2); t = b; }
    } else {
      Nullable<std::shared_ptr<Derived>> n(d);
      const Nullable<std::shared_ptr<Derived>> n2(n);
      vf_assert(n2.get() == raw, "N02: keeps exactly the pointer it was given");
      if (src == 3) mustAbort(kUnex, [&] { if (assign) t = n2; else { NotNull<std::shared_ptr<Base>> b(n2); t = b; } });
      vf_assert((n2 == nullptr) == null, "N02: comparison with null agrees with the raw pointer");
      if (null) mustAbort(kNull, [&] { if (assign) t = n2; else { NotNull<std::shared_ptr<Base>> b(n2); t = b; } });
      vf_assert(n2->v == v && (*n2).v == v, "N02: access yields exactly the stored pointer");
      if (assign) t = n2; else { NotNull<std::shared_ptr<Base>> b(n2); t = b; }
    }
    vf_assert(t.get() == raw && t->v == v && (*t).v == v, "N01: keeps exactly the pointer it was given");
    if (vf_flip("take")) {
      std::shared_ptr<Base> out = std::move(t).Take();
      vf_assert(out.get() == raw, "N01: taking hands over the pointer");
      const uint64_t again = vf_choose(7, "again");
      using N = NotNull<std::shared_ptr<Base>>;
      if (again == 1) mustAbort(kNull, [&] { N n(std::move(t)); });
      if (again == 2) mustAbort(kNull, [&] { N n(t); });
      if (again == 3) mustAbort(kNull, [&] { N n(std::make_shared<Base>()); n = std::move(t); });
      if (again == 4) mustAbort(kNull, [&] { N n(std::make_shared<Base>()); n = t; });
      if (again >= 5) {
        NotNull<std::shared_ptr<Derived>> from(std::make_shared<Derived>());
        std::shared_ptr<Derived> gone = std::move(from).Take();
        if (vf_flip("assign2")) mustAbort(kNull, [&] { N n(std::make_shared<Base>()); if (again == 5) n = from; else n = std::move(from); });
        mustAbort(kNull, [&] { if (again == 5) { N n(from); } else { N n(std::move(from)); } });
      }
    }
    vf_observe("v", (uint32_t)v);
  }
  vf_assert(g_live == 0 && vf_heap_live() == heap, "N01: every owned object is freed exactly once");
  vf_reach("n01");
}
