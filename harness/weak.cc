// W01, W02: weak pointers and weakly bound callbacks.
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include "rst/bind/bind.h"
#include "rst/bind/bind_helpers.h"
#include "rst/memory/weak_ptr.h"
#include "vf.h"

namespace {
#ifdef NDEBUG
constexpr bool kReleased = true;
#else
constexpr bool kReleased = false;
#endif
struct Side { long pad[2] = {1, 2}; virtual ~Side() = default; };
struct Base : rst::SupportsWeakPtr<Base> { int b = 0; };
struct Derived : Side, Base { int d = 0; };

template <class T> struct Slot {
  rst::WeakPtr<T> w;
  uint64_t gen = 0;      // object generation it refers to, 0 = none
  bool known = true;     // false: moved from
};
const char kAddr[] = "W01: a weak pointer yields the exact address while the object lives";
const char kGone[] = "W01: a weak pointer yields null once the object is gone";
}  // namespace

// Sequences over one storage cell in which objects live one after the other, and weak pointers of several types.
VF_ENTRY(w01_ops) {
  const uint64_t steps = vf_param(0, 3), heap = vf_heap_live();
  {
    alignas(Derived) static char mem[sizeof(Derived)];
    Derived* obj = nullptr;
    uint64_t gen = 0;
    Slot<Base> b[2];
    Slot<Derived> d;
    Slot<const Base> c;
    auto put = [&](auto& dst, auto& src) {
      if (vf_flip("move")) { dst.w = std::move(src.w); dst.gen = src.gen; dst.known = src.known; if ((void*)&dst != (void*)&src) src.known = false; }
      else { dst.w = src.w; dst.gen = src.gen; dst.known = src.known; }
    };
    for (uint64_t i = 0; i < steps; i++) {
      const uint64_t op = vf_choose(12, "op");
      switch (op) {
        case 0: if (obj) vf_stop(); obj = new (mem) Derived; gen++; break;
        case 1: if (!obj) vf_stop(); obj->~Derived(); obj = nullptr; break;
        case 2: if (!obj) vf_stop(); b[0].w = obj->AsWeakPtr(); b[0].gen = gen; b[0].known = true; break;
        case 3: if (!obj) vf_stop(); d.w = rst::AsWeakPtr(obj); d.gen = gen; d.known = true; break;
        case 4: if (!obj) vf_stop(); c.w = static_cast<const Derived*>(obj)->AsWeakPtr(); c.gen = gen; c.known = true; break;
        case 5: put(b[1], b[0]); break;
        case 6: put(b[0], b[1]); break;
        case 7: put(b[0], d); break;
        case 8: put(c, d); break;
        case 9: put(c, b[1]); break;
        case 10: { const uint64_t k = vf_choose(3, "k"); if (k == 0) { b[0].w = nullptr; b[0].gen = 0; b[0].known = true; } else if (k == 1) { d.w = nullptr; d.gen = 0; d.known = true; } else { c.w = nullptr; c.gen = 0; c.known = true; } break; }
        default: {   // through constructors
          rst::WeakPtr<Base> t(b[0].w);
          rst::WeakPtr<const Base> t2(d.w);
          rst::WeakPtr<Base> t3(std::move(t));
          if (b[0].known) vf_assert(t3.GetNullable().get() == b[0].w.GetNullable().get(), kAddr);
          if (d.known) vf_assert(t2.GetNullable().get() == (d.gen == gen && obj ? static_cast<const Base*>(obj) : nullptr), kAddr);
          rst::WeakPtr<Base> t4(nullptr), t5;
          vf_assert(t4.GetNullable().get() == nullptr && t5.GetNullable().get() == nullptr, kGone);
        }
      }
      auto check = [&](auto& s, auto* want) {
        if (!s.known) return;
        const bool valid = obj && s.gen == gen;
        if (valid) vf_assert(s.w.GetNullable().get() == want, kAddr);
        else vf_assert(s.w.GetNullable().get() == nullptr, kGone);
      };
      check(b[0], static_cast<Base*>(obj));
      check(b[1], static_cast<Base*>(obj));
      check(c, static_cast<const Base*>(obj));
      check(d, obj);
    }
    if (d.known) {
      const bool valid = obj && d.gen == gen;
      const auto p = d.w.GetNullable();
      vf_observe("valid", valid);
      if (vf_flip("use")) {
        if (!valid && kReleased) vf_stop();  // a release build promises no abort
        if (!valid) { (void)(p == nullptr); vf_reach("aborts"); vf_expect_trap("W01: dereferencing an expired weak pointer aborts"); p->d = 1; vf_fail("W01: dereferencing an expired weak pointer aborts"); }
        else if (p != nullptr) { p->d = 7; vf_assert(obj->d == 7, kAddr); }
      }
    }
    if (obj) obj->~Derived();
  }
  vf_assert(vf_heap_live() == heap, "W01: the bookkeeping is freed when the last holder goes");
  vf_reach("w01");
}

// Two objects alive side by side, and weak pointers of every type in any state.
namespace {
struct Cell { Derived* obj = nullptr; uint64_t gen = 0; };
// what a weak pointer has to yield: the object of a cell and generation, null (cell 2), or it was moved from (cell 3: null or what it was)
struct Ref { int cell = 2; uint64_t gen = 0; int was = 2; uint64_t wasGen = 0; };
template <class T> struct Any { rst::WeakPtr<T> w; Ref r; };
template <class T> bool yields(const rst::WeakPtr<T>& w, const Ref& r, Cell* cells) {
  const rst::Nullable<T*> n = w.GetNullable();
  T* p = n.get();
  auto is = [&](int cell, uint64_t gen) {
    if (cell > 1 || !cells[cell].obj || cells[cell].gen != gen) return p == nullptr;
    return p == static_cast<T*>(cells[cell].obj);
  };
  if (r.cell == 3) return p == nullptr || is(r.was, r.wasGen);
  return is(r.cell, r.gen);
}
template <class A, class B> void assign(Any<A>& dst, Any<B>& src, bool move) {
  const Ref r = src.r;
  const bool self = (void*)&dst == (void*)&src;
  if (move) dst.w = std::move(src.w); else dst.w = src.w;
  if (move && !self) { src.r.was = r.cell == 3 ? r.was : r.cell; src.r.wasGen = r.cell == 3 ? r.wasGen : r.gen; src.r.cell = 3; }
  dst.r = r;
  if (move && self) { dst.r.was = r.cell == 3 ? r.was : r.cell; dst.r.wasGen = r.cell == 3 ? r.wasGen : r.gen; dst.r.cell = 3; }
}
template <class A, class B> void construct(Any<B>& src, bool move, Cell* cells) {
  const Ref r = src.r;
  if (move) {
    rst::WeakPtr<A> t(std::move(src.w));
    if (r.cell != 3) vf_assert(yields(t, r, cells), kAddr);
    src.r.was = r.cell == 3 ? r.was : r.cell; src.r.wasGen = r.cell == 3 ? r.wasGen : r.gen; src.r.cell = 3;
  } else {
    rst::WeakPtr<A> t(src.w);
    vf_assert(yields(t, r, cells), kAddr);
  }
}
}  // namespace
// params: 0 operations, 1: all but the first destroy objects
VF_ENTRY(w01_any) {
  const uint64_t heap = vf_heap_live();
  {
    alignas(Derived) static char mem[2][sizeof(Derived)];
    Cell cells[2];
    Any<Base> b, b2;
    Any<Derived> d;
    Any<const Base> c;
    Any<const Derived> e;
    auto make = [&](int k) { cells[k].obj = new (mem[k]) Derived; cells[k].gen++; };
    auto end = [&](int k) { cells[k].obj->~Derived(); cells[k].obj = nullptr; };
    auto point = [&](auto& s, int k) {
      s.r = Ref{k, cells[k].gen};
      using T = std::decay_t<decltype(*s.w.GetNullable().get())>;
      if constexpr (std::is_same_v<T, Derived>) s.w = rst::AsWeakPtr(static_cast<decltype(s.w.GetNullable().get())>(cells[k].obj));
      else if constexpr (std::is_const_v<std::remove_reference_t<decltype(*s.w.GetNullable().get())>>) s.w = static_cast<const Derived*>(cells[k].obj)->AsWeakPtr();
      else s.w = cells[k].obj->AsWeakPtr();
    };
    // 0 null, 1 expired, 2 and 3 an object that lives, 4 moved from
    uint64_t st[5];
    for (auto& x : st) x = vf_choose(5, "state");
    make(0);
    if (st[0] == 1) point(b, 0);
    if (st[1] == 1) point(b2, 0);
    if (st[2] == 1) point(d, 0);
    if (st[3] == 1) point(c, 0);
    if (st[4] == 1) point(e, 0);
    end(0);
    make(0);
    make(1);
    auto init = [&](auto& s, uint64_t state) {
      if (state >= 2) point(s, state == 3 ? 1 : 0);
      if (state == 4) { auto t = std::move(s.w); s.r = Ref{3, 0, 0, cells[0].gen}; }
    };
    init(b, st[0]); init(b2, st[1]); init(d, st[2]); init(c, st[3]); init(e, st[4]);
    const char* l = nullptr;
    for (uint64_t i = 0; i < vf_param(0, 2); i++) {
      const uint64_t op = vf_choose(i && vf_param(1, 0) ? 2 : 23, "op");
      const bool mv = op >= 2 && op <= 18 && vf_flip("move");
      l = kAddr;
      switch (op) {
        case 0: case 1: if (!cells[op].obj) vf_stop(); end((int)op); l = kGone; break;
        case 2: assign(b, b2, mv); break;
        case 3: assign(b, d, mv); break;
        case 4: assign(c, b, mv); break;
        case 5: assign(c, d, mv); break;
        case 6: assign(c, e, mv); break;
        case 7: assign(e, d, mv); break;
        case 8: assign(d, d, mv); break;
        case 9: assign(b, b, mv); break;
        case 10: construct<Base>(b, mv, cells); break;
        case 11: construct<Base>(d, mv, cells); break;
        case 12: construct<const Base>(b, mv, cells); break;
        case 13: construct<const Base>(d, mv, cells); break;
        case 14: construct<const Base>(e, mv, cells); break;
        case 15: construct<const Derived>(d, mv, cells); break;
        case 16: construct<Derived>(d, mv, cells); break;
        case 17: construct<const Base>(c, mv, cells); break;
        case 18: { auto x = d.w; d.w = mv ? std::move(x) : x; break; }
        case 19: b.w = nullptr; b.r = Ref(); break;
        case 20: d.w = nullptr; d.r = Ref(); break;
        case 21: if (!cells[0].obj) vf_stop(); if (vf_flip("which")) { point(d, 0); point(b, 0); } else { point(c, 0); point(e, 0); } break;
        default: if (!cells[1].obj) vf_stop(); if (vf_flip("which")) { point(d, 1); point(b, 1); } else { point(c, 1); point(e, 1); } break;
      }
      const bool ok = yields(b.w, b.r, cells) & yields(b2.w, b2.r, cells) & yields(d.w, d.r, cells) & yields(c.w, c.r, cells) & yields(e.w, e.r, cells);
      vf_assert(ok, l);
      vf_observe("b", b.w.GetNullable().get() != nullptr);
    }
    for (int k = 0; k < 2; k++) if (cells[k].obj) end(k);
  }
  vf_assert(vf_heap_live() == heap, "W01: the bookkeeping is freed when the last holder goes");
  vf_reach("w01");
}

// ---------------------------------------------------------------- W02
namespace {
struct Log { int n = 0; const void* self[4]; int a[4], b[4]; const char* s[4]; };
Log g_log;
struct Target : rst::SupportsWeakPtr<Target>, std::enable_shared_from_this<Target> {
  virtual ~Target() = default;
  void Two(int a, int b) { rec(a, b); }
  void Const(int a, const int& b) const { rec(a, b); }
  virtual void Virt(int a, int b) { rec(a, b); }
  void Str(const std::string& s, int b) { rec((int)s.size(), b); g_log.s[g_log.n - 1] = s.c_str(); vf_assert(s == "bound text that is long enough for the heap", "W02: bound arguments are kept by value"); }
  void Die(int a, int b) { rec(a, b); delete this; }
  void Move(std::unique_ptr<int> p, int b) { rec(*p, b); }
  void rec(int a, int b) const { if (g_log.n < 4) { g_log.self[g_log.n] = this; g_log.a[g_log.n] = a; g_log.b[g_log.n] = b; } g_log.n++; }
  int pad = 0;
};
struct Sub : Side, Target {
  void Virt(int a, int b) override { rec(a + 1, b); }
};
void expectCall(int i, const Target* t, int a, int b) {
  vf_assert(g_log.n == i + 1, "W02: the member runs exactly once per call");
  vf_assert(g_log.self[i] == t, "W02: on exactly that object");
  vf_assert(g_log.a[i] == a && g_log.b[i] == b, "W02: with exactly the bound and call-time arguments, in order");
}
}  // namespace

VF_ENTRY(w02_bind) {
  const uint64_t heap = vf_heap_live();
  g_log = Log();
  {
    const int x = (int)vf_sym(32, "bound"), y = (int)vf_sym(32, "called"), y2 = (int)vf_sym(32, "called2");
    vf_assume(x != 2147483647);
    const uint64_t kind = vf_choose(6, "kind");
    const bool viaShared = vf_flip("std_weak"), sub = vf_flip("sub");
    if (kind == 4 && viaShared) vf_stop();
    std::shared_ptr<Target> owner;
    Target* raw;
    Sub* rs = nullptr;
    if (viaShared) { if (sub) owner = std::make_shared<Sub>(); else owner = std::make_shared<Target>(); raw = owner.get(); }
    else { if (sub) raw = rs = new Sub; else raw = new Target; }
    auto destroy = [&] { if (viaShared) owner.reset(); else delete raw; };
    using namespace std::placeholders;
    std::function<void(int)> f;
    bool swapped = false;
    {
      int bound = x;
      std::string text = "bound text that is long enough for the heap";
      auto mk = [&](auto&& w) {
        using W = std::decay_t<decltype(w)>;
        switch (kind) {
          case 0: f = rst::Bind(&Target::Two, W(w), bound, _1); break;
          case 1: f = rst::Bind(&Target::Const, W(w), _1, bound); swapped = true; break;
          case 2: f = rst::Bind(&Target::Virt, W(w), bound, _1); break;
          case 3: f = rst::Bind(&Target::Str, W(w), text, _1); break;
          case 4: f = rst::Bind(&Target::Die, W(w), bound, _1); break;
          default: f = rst::Bind([](auto&& t, int a, int b) { t->Two(a, b); }, W(w), bound, _1); break;
        }
      };
      if (viaShared) mk(std::weak_ptr<Target>(owner));
      else if (sub && vf_flip("derived_ptr")) { rst::WeakPtr<Sub> w = rst::AsWeakPtr(rs); mk(w); }
      else mk(raw->AsWeakPtr());
      bound = ~x;
      text = "changed after the binding, must not be seen by it";
    }
    std::function<void(int)> g = f;
    const int a0 = kind == 3 ? 43 : kind == 2 && sub ? x + 1 : x;
    auto ea = [&](int call) { return swapped ? call : a0; };
    auto eb = [&](int call) { return swapped ? x : call; };
    const bool early = vf_flip("early");
    if (!early) {
      f(y);
      expectCall(0, raw, ea(y), eb(y));
      if (kind == 4) { g(y2); f(y); vf_assert(g_log.n == 1, "W02: nothing runs once the object is gone"); }
      else { g(y2); expectCall(1, raw, ea(y2), eb(y2)); }
    }
    const int before = g_log.n;
    if (!(kind == 4 && !early)) destroy();
    std::function<void(int)> h = g;
    f(y);
    g(y2);
    h(y);
    vf_assert(g_log.n == before, "W02: nothing runs once the object is gone");
    vf_observe("n", g_log.n);
    vf_observe("a", g_log.n ? (uint32_t)g_log.a[0] : 0);
  }
  vf_assert(vf_heap_live() == heap, "W02: everything bound is freed");
  vf_reach("w02");
}

// Several bound and several call-time arguments, in any order; the placeholder helpers.
VF_ENTRY(w02_args) {
  struct T : rst::SupportsWeakPtr<T> {
    int got[4]; int n = 0;
    void Four(int a, int b, int c, int d) { got[0] = a; got[1] = b; got[2] = c; got[3] = d; n++; }
    void None() { n++; }
  };
  const uint64_t heap = vf_heap_live();
  {
    int v[4];
    for (int& i : v) i = (int)vf_sym(32, "v");
    auto t = std::make_unique<T>();
    using namespace std::placeholders;
    const uint64_t k = vf_choose(4, "k");
    std::function<void(int, int)> f;
    int want[4];
    if (k == 0) { f = rst::Bind(&T::Four, t->AsWeakPtr(), v[0], v[1], _1, _2); want[0] = v[0]; want[1] = v[1]; want[2] = v[2]; want[3] = v[3]; }
    if (k == 1) { f = rst::Bind(&T::Four, t->AsWeakPtr(), _2, v[0], _1, v[1]); want[0] = v[3]; want[1] = v[0]; want[2] = v[2]; want[3] = v[1]; }
    if (k == 2) { f = rst::Bind(&T::Four, t->AsWeakPtr(), _1, _1, _2, _2); want[0] = want[1] = v[2]; want[2] = want[3] = v[3]; }
    if (k == 3) { f = rst::Bind(&T::None, t->AsWeakPtr()); }
    f(v[2], v[3]);
    vf_assert(t->n == 1, "W02: the member runs exactly once per call");
    if (k < 3) for (int i = 0; i < 4; i++) { vf_assert(t->got[i] == want[i], "W02: with exactly the bound and call-time arguments, in order"); vf_observe("g", (uint32_t)t->got[i]); }
    t.reset();
    f(v[0], v[1]);
    std::function<void(int)> dn = rst::DoNothing();
    dn(1);
    std::function<void(int)> nf = rst::NullFunction();
    vf_assert(nf == nullptr && dn != nullptr, "W02: the placeholder helpers do what they say");
  }
  vf_assert(vf_heap_live() == heap, "W02: everything bound is freed");
  vf_reach("w02");
}

// Arguments of class type, however the member takes them; references; a target that is const; what happens inside the call.
namespace {
const char kBound[] = "W02: bound arguments are kept by value";
const char kArgs[] = "W02: with exactly the bound and call-time arguments, in order";
struct Payload {            // owns memory, and a moved-from one is empty
  explicit Payload(int x) : p(new int(x)) {}
  Payload(const Payload& o) : p(o.p ? new int(*o.p) : nullptr) {}
  Payload(Payload&& o) noexcept : p(o.p) { o.p = nullptr; }
  Payload& operator=(const Payload&) = delete;
  ~Payload() { delete p; }
  int get() const { return p ? *p : -1; }
  int* p;
};
struct Keeper : rst::SupportsWeakPtr<Keeper>, std::enable_shared_from_this<Keeper> {
  mutable int n = 0, a = 0, b = 0;
  void hit(int x, int y) const { n++; a = x; b = y; }
  void Value(Payload x, Payload y) { hit(x.get(), y.get()); }
  void Ref(const Payload& x, const Payload& y) { hit(x.get(), y.get()); }
  void Forward(Payload&& x, const Payload& y) { Payload t(std::move(x)); hit(t.get(), y.get()); }
  void ConstValue(Payload x, Payload y) const { hit(x.get(), y.get()); }
  void Change(Payload& x, int& y) { hit(x.get(), y); y++; }
  void Owned(std::unique_ptr<int> x, Payload y) { hit(*x, y.get()); }
  void DropOwner(int x, int y);
  ~Keeper();
};
std::shared_ptr<Keeper>* g_owner;
int g_inside;
bool g_dead;
Keeper::~Keeper() { n = -7; g_dead = true; }
void Keeper::DropOwner(int x, int y) { g_owner->reset(); const bool dead = g_dead; hit(x, y); g_inside = dead ? ~x : a; }
}  // namespace
VF_ENTRY(w02_values) {
  const uint64_t heap = vf_heap_live();
  {
    const int x = (int)vf_sym(32, "bound"), y = (int)vf_sym(32, "called"), y2 = (int)vf_sym(32, "called2");
    vf_assume(x != -1 && y != -1 && y2 != -1 && y != 2147483647 && y2 != 2147483647);
    const bool shared = vf_flip("std_weak"), rvalue = vf_flip("rvalue");
    auto keeper = std::make_shared<Keeper>();
    Keeper* k = keeper.get();
    g_owner = &keeper;
    using namespace std::placeholders;
#ifdef W02_FORWARD     // on its own: it needs more of the call operator to compile
    const uint64_t kind = 4 + vf_choose(3, "kind");
#else
    const uint64_t kind = vf_choose(4, "kind");
#endif
    Payload bound(x);
    auto twice = [&](auto call) {      // the callback keeps its own copy of what was bound: it can be called again
      call(y);
      vf_assert(k->n == 1, "W02: the member runs exactly once per call");
      vf_assert(k->a == x && k->b == y, kArgs);
      call(y2);
      vf_assert(k->n == 2, "W02: the member runs exactly once per call");
      vf_assert(k->a == x && k->b == y2, kBound);
      vf_assert(bound.get() == (rvalue ? -1 : x), kBound);
      keeper.reset();
      call(y);
    };
    auto bind = [&](auto f, auto&& w) {
      if (rvalue) return std::function<void(const Payload&)>(rst::Bind(f, std::move(w), std::move(bound), _1));
      return std::function<void(const Payload&)>(rst::Bind(f, std::move(w), bound, _1));
    };
    auto run = [&](auto f) {
      std::function<void(const Payload&)> g = shared ? bind(f, keeper->weak_from_this()) : bind(f, keeper->AsWeakPtr());
      if (vf_flip("copy")) { std::function<void(const Payload&)> h = g; g = nullptr; twice([&](int v) { h(Payload(v)); }); }
      else twice([&](int v) { Payload p(v); g(p); vf_assert(p.get() == v, "W02: what the caller passes as a constant stays as it is"); });
    };
    switch (kind) {
      case 0: run(&Keeper::Value); break;
      case 1: run(&Keeper::Ref); break;
      case 2: {   // through pointers to const
        const Keeper* ck = k;
        std::function<void(const Payload&)> g;
        if (shared) g = rst::Bind(&Keeper::ConstValue, std::weak_ptr<const Keeper>(keeper), bound, _1);
        else g = rst::Bind(&Keeper::ConstValue, ck->AsWeakPtr(), bound, _1);
        if (rvalue) vf_stop();
        twice([&](int v) { g(Payload(v)); });
        break;
      }
#ifdef W02_FORWARD
      case 4: {   // a call-time argument that can only be moved, and a bound one taken by value
        if (rvalue) vf_stop();
        std::function<void(std::unique_ptr<int>)> g;
        if (shared) g = rst::Bind([](auto&& t, std::unique_ptr<int> b, Payload a) { t->hit(a.get(), *b); }, keeper->weak_from_this(), _1, bound);
        else g = rst::Bind([](auto&& t, std::unique_ptr<int> b, Payload a) { t->hit(a.get(), *b); }, keeper->AsWeakPtr(), _1, bound);
        twice([&](int v) { auto p = std::make_unique<int>(v); g(std::move(p)); });
        break;
      }
      case 5: {   // references reach the member
        if (rvalue) vf_stop();
        std::function<void(int&)> g;
        if (shared) g = rst::Bind(&Keeper::Change, keeper->weak_from_this(), std::ref(bound), _1);
        else g = rst::Bind(&Keeper::Change, keeper->AsWeakPtr(), std::ref(bound), _1);
        int v = y;
        g(v);
        vf_assert(k->n == 1 && k->a == x && k->b == y, kArgs);
        vf_assert(v == y + 1, "W02: a reference argument reaches the member");
        keeper.reset();
        g(v);
        vf_assert(v == y + 1, "W02: nothing runs once the object is gone");
        break;
      }
      case 6: {   // a call-time rvalue is handed on as one
        if (rvalue || shared) vf_stop();
        std::function<void(Payload)> g = rst::Bind(&Keeper::Forward, keeper->AsWeakPtr(), _1, bound);
        g(Payload(y));
        vf_assert(k->n == 1 && k->a == y && k->b == x, kArgs);
        g(Payload(y2));
        vf_assert(k->n == 2 && k->a == y2 && k->b == x, kBound);
        break;
      }
#else
      default: {  // the last owner lets go inside the call: the target lives until the call is over
        if (rvalue || !shared) vf_stop();
        g_inside = ~x;
        g_dead = false;
        std::function<void(int)> g = rst::Bind(&Keeper::DropOwner, keeper->weak_from_this(), x, _1);
        g(y);
        vf_assert(keeper == nullptr && g_inside == x && g_dead, "W02: a shared target lives until the call is over");
        g_inside = ~x;
        g(y);
        vf_assert(g_inside == ~x, "W02: nothing runs once the object is gone");
      }
#endif
    }
  }
  vf_assert(vf_heap_live() == heap, "W02: everything bound is freed");
  vf_reach("w02");
}
