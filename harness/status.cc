// T01, T02, T03: Status, StatusOr, the TRY macros and error classes.
#include <new>
#include <string>
#include <utility>
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"
#include "vf.h"

namespace {
int g_errs, g_vals;  // live error objects and contained values

class ErrA : public rst::ErrorInfo<ErrA> {
 public:
  explicit ErrA(std::string m, int n = 0) : n_(n), m_(std::move(m)) { g_errs++; }
  ~ErrA() override { g_errs--; }
  const std::string& AsString() const override { return m_; }
  int n_;
  static char id_;
 private:
  const std::string m_;
};
char ErrA::id_ = 0;
class ErrB : public rst::ErrorInfo<ErrB, ErrA> {
 public:
  using rst::ErrorInfo<ErrB, ErrA>::ErrorInfo;
  static char id_;
};
char ErrB::id_ = 0;
class ErrC : public rst::ErrorInfo<ErrC, ErrB> {
 public:
  using rst::ErrorInfo<ErrC, ErrB>::ErrorInfo;
  static char id_;
};
char ErrC::id_ = 0;
class ErrD : public rst::ErrorInfo<ErrD> {
 public:
  explicit ErrD(int) { g_errs++; }
  ~ErrD() override { g_errs--; }
  const std::string& AsString() const override { return m_; }
  static char id_;
 private:
  const std::string m_ = "d";
};
char ErrD::id_ = 0;

// A value that counts its lifetimes and carries its own heap block.
class Tracked {
 public:
  explicit Tracked(int v) : p_(new int(v)) { g_vals++; }
  Tracked(Tracked&& o) noexcept : p_(o.p_) { o.p_ = nullptr; g_vals++; }
  Tracked& operator=(Tracked&& o) noexcept {
    if (this != &o) { delete p_; p_ = o.p_; o.p_ = nullptr; }
    return *this;
  }
  ~Tracked() { delete p_; g_vals--; }
  int get() const { return *p_; }
 private:
  int* p_;
  Tracked(const Tracked&) = delete;
};
int valueOf(const Tracked& t) { return t.get(); }
int valueOf(int v) { return v; }

bool released() { return vf_param(2, 0) != 0; }  // release builds promise no abort

template <class T> struct Slot {
  alignas(T) char mem[sizeof(T)];
  bool alive = false, checked = false, err = false, moved = false, known = false;
  int val = 0;
  T& o() { return *std::launder(reinterpret_cast<T*>(mem)); }
  void setErr(int v) { alive = true; checked = released(); err = true; moved = false; val = v; }
  void setVal(int v) { alive = true; checked = released(); err = false; moved = false; val = v; }
  void take(Slot& s) { alive = true; checked = released(); err = s.err; val = s.val; moved = false; s.moved = true; s.checked = true; }
  void destroy(const char* l) {
    if (!checked) { vf_reach("t01_abort"); vf_expect_trap(l); o().~T(); vf_fail(l); }
    o().~T();
    alive = false;
  }
};
// With param 3 set an object starts in any state, chosen when it is first touched: the sequence that follows is then
// explored from every state the object can be in.
bool anyState() { return vf_param(3, 0) != 0; }
std::string msg(int v) { return std::string("m") + char('a' + (v & 7)); }
template <class F> void mustAbort(const char* l, F f) {
  if (released()) vf_stop();
  vf_reach("t01_abort");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
const char kDrop[] = "T01: an unexamined object destroyed aborts";
const char kOver[] = "T01: an unexamined object overwritten aborts";
const char kUse[] = "T01: an unexamined object used aborts";

void checkStatus(rst::Status& s, bool err, int val) {
  vf_assert(s.err() == err, "T02: a status reports an error exactly when it holds one");
  if (err) vf_assert(s.GetError()->AsString() == msg(val), "T02: the message is the one put in");
}
}  // namespace

void ensure(Slot<rst::Status>& a) {
  if (a.known) return;
  a.known = true;
  if (!anyState()) return;
  const uint64_t k = vf_choose(4, "state");  // absent, OK, an error, moved from
  if (k == 0) return;
  if (k == 1) { new (a.mem) rst::Status(rst::Status::OK()); a.setVal(0); }
  else { new (a.mem) rst::Status(rst::MakeStatus<ErrA>(msg(5))); a.setErr(5); }
  if (k == 3) { rst::Status t(std::move(a.o())); t.Ignore(); a.moved = a.checked = true; return; }
  switch (vf_choose(3, "examined")) {
    case 0: break;
    case 1: (void)a.o().err(); a.checked = true; break;
    default: a.o().Ignore(); a.checked = true;
  }
}

// T01: any sequence of operations on two Status objects. params: 0 steps, 3: 1 = from any state
VF_ENTRY(t01_status) {
  const uint64_t steps = vf_param(0, 3);
  const uint64_t heap = vf_heap_live();
  Slot<rst::Status> s[2];
  for (uint64_t i = 0; i < steps; i++) {
    const uint64_t op = vf_choose(7, "op"), x = vf_choose(2, "x");
    auto& a = s[x];
    auto& b = s[1 - x];
    ensure(a);
    if (op == 2) ensure(b);
    if (op == 0 || op == 1) {
      const int v = (int)vf_choose(2, "v") + (int)i;
      if (!a.alive) {
        if (op) new (a.mem) rst::Status(rst::MakeStatus<ErrA>(msg(v))); else new (a.mem) rst::Status(rst::Status::OK());
      } else if (a.checked) {
        if (op) a.o() = rst::MakeStatus<ErrA>(msg(v)); else a.o() = rst::Status::OK();
      } else mustAbort(kOver, [&] { if (op) a.o() = rst::MakeStatus<ErrA>(msg(v)); else a.o() = rst::Status::OK(); });
      if (op) a.setErr(v); else a.setVal(0);
    } else if (op == 2) {
      if (!b.alive) vf_stop();
      if (!a.alive) new (a.mem) rst::Status(std::move(b.o()));
      else if (a.checked) a.o() = std::move(b.o());
      else mustAbort(kOver, [&] { a.o() = std::move(b.o()); });
      const bool m = b.moved;
      a.take(b);
      if (m) a.moved = true;  // content of a moved-from object: unspecified
    } else if (!a.alive) {
      vf_stop();
    } else if (op == 3) {
      const bool e = a.o().err();
      if (!a.moved) vf_assert(e == a.err, "T02: a status reports an error exactly when it holds one");
      a.checked = true;
    } else if (op == 4) {
      a.o().Ignore();
      a.checked = true;
    } else if (op == 5) {
      if (a.moved) vf_stop();
      if (!a.checked) mustAbort(kUse, [&] { (void)a.o().GetError(); });
      if (!a.err) mustAbort("T01: asking an OK status for its error aborts", [&] { (void)a.o().GetError(); });
      vf_assert(a.o().GetError()->AsString() == msg(a.val), "T02: the message is the one put in");
    } else {
      a.destroy(kDrop);
    }
  }
  for (auto& a : s) if (a.alive) { vf_observe("err", a.moved ? 2 : a.err); a.destroy(kDrop); }
  vf_assert(g_errs == 0, "T02: every error object is freed exactly once");
  vf_assert(vf_heap_live() == heap, "T02: nothing is leaked");
  vf_reach("t01");
}

template <class T> static T makeVal(int v) { return T(v); }
template <class T> static void ensure(Slot<rst::StatusOr<T>>& a) {
  if (a.known) return;
  a.known = true;
  if (!anyState()) return;
  using S = rst::StatusOr<T>;
  const uint64_t k = vf_choose(5, "state");  // absent, value, error, moved-from value, moved-from error
  if (k == 0) return;
  const int v = (int)vf_sym(32, "value");
  if (k % 2) { new (a.mem) S(makeVal<T>(v)); a.setVal(v); }
  else { new (a.mem) S(rst::Status(rst::MakeStatus<ErrA>(msg(5)))); a.setErr(5); }
  if (k >= 3) { S t(std::move(a.o())); t.Ignore(); a.moved = a.checked = true; return; }
  switch (vf_choose(3, "examined")) {
    case 0: break;
    case 1: (void)a.o().err(); a.checked = true; break;
    default: a.o().Ignore(); a.checked = true;
  }
}
// Stores a value through either overload: by const reference (trivially copyable types only) or by rvalue.
template <class T> static void construct(void* mem, int v) {
  if constexpr (std::is_trivially_copyable_v<T>) {
    if (vf_flip("lvalue")) { const T t = makeVal<T>(v); new (mem) rst::StatusOr<T>(t); return; }
  }
  new (mem) rst::StatusOr<T>(makeVal<T>(v));
}
template <class T> static void assign(rst::StatusOr<T>& s, int v) {
  if constexpr (std::is_trivially_copyable_v<T>) {
    if (vf_flip("lvalue")) { const T t = makeVal<T>(v); s = t; return; }
  }
  s = makeVal<T>(v);
}
// T01, T02: any sequence of operations on two StatusOr objects. params: 0 steps, 1: 1 = trivially copyable value
template <class T> static void statusOr() {
  using S = rst::StatusOr<T>;
  const uint64_t steps = vf_param(0, 3);
  const uint64_t heap = vf_heap_live();
  {
    Slot<S> s[2];
    for (uint64_t i = 0; i < steps; i++) {
      const uint64_t op = vf_choose(10, "op"), x = vf_choose(2, "x");
      auto& a = s[x];
      auto& b = s[1 - x];
      ensure(a);
      if (op == 2) ensure(b);
      if (op == 0) {
        const int v = (int)vf_sym(32, "value");
        if (!a.alive) construct<T>(a.mem, v);
        else if (a.checked) assign<T>(a.o(), v);
        else mustAbort(kOver, [&] { assign<T>(a.o(), v); });
        a.setVal(v);
      } else if (op == 1) {
        const int v = (int)i;
        if (!a.alive) new (a.mem) S(rst::Status(rst::MakeStatus<ErrA>(msg(v))));
        else if (a.checked) a.o() = rst::Status(rst::MakeStatus<ErrA>(msg(v)));
        else mustAbort(kOver, [&] { a.o() = rst::Status(rst::MakeStatus<ErrA>(msg(v))); });
        a.setErr(v);
      } else if (op == 2) {
        if (!b.alive || b.moved) vf_stop();
        if (!a.alive) new (a.mem) S(std::move(b.o()));
        else if (a.checked) a.o() = std::move(b.o());
        else mustAbort(kOver, [&] { a.o() = std::move(b.o()); });
        a.take(b);
      } else if (op == 9) {
        if (a.alive && !a.checked) vf_stop();
        if (a.alive) mustAbort("T02: an OK status is no error to store", [&] { a.o() = rst::Status::OK(); });
        else mustAbort("T02: an OK status is no error to store", [&] { new (a.mem) S(rst::Status::OK()); });
      } else if (!a.alive) {
        vf_stop();
      } else if (op == 3) {
        const bool e = a.o().err();
        if (!a.moved) vf_assert(e == a.err, "T02: reports an error exactly when its last source did");
        a.checked = true;
      } else if (op == 4) {
        a.o().Ignore();
        a.checked = true;
      } else if (op == 8) {
        a.destroy(kDrop);
      } else if (a.moved) {
        vf_stop();
      } else if (op == 5) {
        if (!a.checked) mustAbort(kUse, [&] { (void)*a.o(); });
        if (a.err) mustAbort("T02: dereferencing an error aborts", [&] { (void)*a.o(); });
        vf_assert(valueOf(*a.o()) == a.val, "T02: yields exactly the value put in");
      } else if (op == 6) {
        if (!a.checked) mustAbort(kUse, [&] { (void)a.o().operator->(); });
        if (a.err) mustAbort("T02: dereferencing an error aborts", [&] { (void)a.o().operator->(); });
        vf_assert(valueOf(*a.o().operator->().get()) == a.val, "T02: yields exactly the value put in");
      } else {
        if (!a.checked) mustAbort(kUse, [&] { (void)a.o().status(); });
        if (!a.err) mustAbort("T02: taking the status of a value aborts", [&] { (void)a.o().status(); });
        vf_assert(a.o().status().GetError()->AsString() == msg(a.val), "T02: the message is the one put in");
        if (vf_flip("take")) {
          rst::Status t = std::move(a.o()).TakeStatus();
          checkStatus(t, true, a.val);
          a.moved = true;
        }
      }
    }
    for (auto& a : s) if (a.alive) {
      if (a.checked && !a.moved) {
        vf_assert(a.o().err() == a.err, "T02: reports an error exactly when its last source did");
        if (a.err) vf_assert(a.o().status().GetError()->AsString() == msg(a.val), "T02: the message is the one put in");
        else { vf_assert(valueOf(*a.o()) == a.val, "T02: yields exactly the value put in"); vf_observe("v", (uint64_t)(uint32_t)valueOf(*a.o())); }
      }
      a.destroy(kDrop);
    }
  }
  vf_assert(g_errs == 0, "T02: every error object is freed exactly once");
  vf_assert(g_vals == 0, "T02: every contained value is destroyed exactly once");
  vf_assert(vf_heap_live() == heap, "T02: nothing is leaked");
  vf_reach("t01");
}
VF_ENTRY(t02_statusor) {
  if (vf_param(1, 0)) statusOr<int>(); else statusOr<Tracked>();
}

// T01 from any state: one operation on an object that was or was not examined, reached through a chain of moves.
VF_ENTRY(t01_moves) {
  const bool err = vf_flip("err"), examined = vf_flip("examined");
  const uint64_t kind = vf_choose(2, "kind");
  if (kind == 0) {
    rst::Status a = err ? rst::Status(rst::MakeStatus<ErrA>("m")) : rst::Status::OK();
    if (vf_flip("first")) (void)a.err();
    rst::Status b = std::move(a);     // obligation moves to b even when a was examined
    if (examined) { if (vf_flip("how")) b.Ignore(); else vf_assert(b.err() == err, "T02: a moved status keeps its content"); }
    else { vf_reach("t01_abort"); vf_expect_trap("T01: the moved-to status carries the obligation"); }
  } else {
    rst::StatusOr<int> a = err ? rst::StatusOr<int>(rst::Status(rst::MakeStatus<ErrA>("m"))) : rst::StatusOr<int>(7);
    if (vf_flip("first")) (void)a.err();
    rst::StatusOr<int> b = std::move(a);
    if (examined) { if (vf_flip("how")) b.Ignore(); else vf_assert(b.err() == err, "T02: a moved object keeps its content"); }
    else { vf_reach("t01_abort"); vf_expect_trap("T01: the moved-to object carries the obligation"); }
  }
  if (!examined) vf_fail("T01: the moved-to object carries the obligation");
  vf_reach("t01");
}

// ---------------------------------------------------------------- T03
namespace {
const rst::ErrorInfoBase* g_raised;
int g_after;
rst::Status raise(int which) {
  if (which == 0) return rst::Status::OK();
  rst::Status s = which == 1 ? rst::Status(rst::MakeStatus<ErrA>("alpha", 11)) : which == 2 ? rst::Status(rst::MakeStatus<ErrC>("gamma", 33)) : rst::Status(rst::MakeStatus<ErrD>(4));
  (void)s.err();
  g_raised = s.GetError().get();
  return s;
}
template <class T> rst::StatusOr<T> produce(int which, int v) {
  if (which) return raise(which);
  return T(v);
}
int g_evals;
rst::Status viaTry(int which) {
  RST_TRY((g_evals++, raise(which)));
  g_after++;
  return rst::Status::OK();
}
template <class T> rst::Status viaAssign(int w1, int w2, int v, int* out) {
  RST_TRY_CREATE(rst::StatusOr<T>, a, (g_evals++, produce<T>(w1, v)));
  g_after++;
  *out = valueOf(*a);
  RST_TRY_ASSIGN(a, (g_evals++, produce<T>(w2, v + 1)));
  g_after++;
  *out = valueOf(*a);
  return rst::Status::OK();
}
template <class T> rst::StatusOr<T> viaUnwrap(int which, int v) {
  T t(0);
  RST_TRY_ASSIGN_UNWRAP(t, (g_evals++, produce<T>(which, v)));
  g_after++;
  return t;
}
template <> rst::StatusOr<Tracked> viaUnwrap<Tracked>(int which, int v) {
  Tracked t(0);
  RST_TRY_ASSIGN_UNWRAP(t, (g_evals++, produce<Tracked>(which, v)));
  g_after++;
  return rst::StatusOr<Tracked>(std::move(t));
}
rst::Status deep(int which, int depth) {
  if (depth == 0) { RST_TRY(viaTry(which)); }
  else { RST_TRY(deep(which, depth - 1)); }
  g_after++;
  return rst::Status::OK();
}
void same(rst::Status& s, int which) {
  vf_assert(s.err() == (which != 0), "T03: an error comes out exactly when one went in");
  if (!which) return;
  vf_assert(s.GetError().get() == g_raised, "T03: the very same error object comes out");
  vf_assert(s.GetError()->AsString() == (which == 1 ? "alpha" : which == 2 ? "gamma" : "d"), "T03: its message is unchanged");
}
}  // namespace
template <class T> static void tryEntry() {
  const uint64_t heap = vf_heap_live();
  {
    const int which = (int)vf_choose(4, "error"), v = (int)vf_sym(16, "value");
    switch (vf_choose(4, "macro")) {
      case 0: {
        rst::Status s = viaTry(which);
        same(s, which);
        vf_assert(g_evals == 1, "T03: the expression is evaluated once");
        vf_assert(g_after == (which == 0), "T03: the function returns immediately exactly on an error");
        break;
      }
      case 1: {
        const int depth = (int)vf_choose(4, "depth");
        rst::Status s = deep(which, depth);
        same(s, which);
        vf_assert(g_after == (which == 0 ? depth + 2 : 0), "T03: the function returns immediately exactly on an error");
        break;
      }
      case 2: {
        const int w2 = (int)vf_choose(4, "error2");
        int out = -1;
        rst::Status s = viaAssign<T>(which, w2, v, &out);
        same(s, which ? which : w2);
        vf_assert(g_after == (which ? 0 : w2 ? 1 : 2), "T03: the function returns immediately exactly on an error");
        vf_assert(g_evals == (which ? 1 : 2), "T03: the expression is evaluated once");
        vf_assert(out == (which ? -1 : w2 ? v : v + 1), "T03: the produced value is delivered unchanged");
        break;
      }
      default: {
        rst::StatusOr<T> s = viaUnwrap<T>(which, v);
        vf_assert(s.err() == (which != 0), "T03: an error comes out exactly when one went in");
        vf_assert(g_evals == 1, "T03: the expression is evaluated once");
        vf_assert(g_after == (which == 0), "T03: the function returns immediately exactly on an error");
        if (which) { rst::Status t = std::move(s).TakeStatus(); same(t, which); }
        else { vf_assert(valueOf(*s) == v, "T03: the produced value is delivered unchanged"); vf_observe("v", (uint64_t)valueOf(*s)); }
      }
    }
  }
  vf_assert(g_errs == 0, "T02: every error object is freed exactly once");
  vf_assert(g_vals == 0, "T02: every contained value is destroyed exactly once");
  vf_assert(vf_heap_live() == heap, "T02: nothing is leaked");
  vf_reach("t03");
}
VF_ENTRY(t03_try) { if (vf_param(0, 0)) tryEntry<Tracked>(); else tryEntry<int>(); }

template <class D> static void castAll(rst::ErrorInfoBase* p, bool a, bool b, bool c, bool d) {
  const rst::ErrorInfoBase* cp = p;
  const auto one = [&](auto* tag, bool want) {
    using Want = std::remove_pointer_t<decltype(tag)>;
    const auto r = rst::dyn_cast<Want>(p);
    vf_assert((r != nullptr) == want, "T03: a downcast succeeds exactly for the dynamic class and its bases");
    if (want) vf_assert(r.get() == static_cast<Want*>(p), "T03: a downcast returns the same object");
    const auto r2 = rst::dyn_cast<Want>(cp);
    vf_assert((r2 != nullptr) == want, "T03: a downcast succeeds exactly for the dynamic class and its bases");
    if (want) vf_assert(r2.get() == static_cast<const Want*>(cp), "T03: a downcast returns the same object");
    const auto r3 = rst::dyn_cast<Want>(rst::NotNull<rst::ErrorInfoBase*>(p));
    vf_assert((r3 != nullptr) == want, "T03: a downcast succeeds exactly for the dynamic class and its bases");
    const auto r4 = rst::dyn_cast<Want>(rst::NotNull<const rst::ErrorInfoBase*>(cp));
    vf_assert((r4 != nullptr) == want, "T03: a downcast succeeds exactly for the dynamic class and its bases");
    vf_assert(p->template IsA<Want>() == want, "T03: IsA agrees");
    vf_assert((p->GetDynamicClassID() == Want::GetClassID()) == (std::is_same_v<D, Want>), "T03: class identities are unique");
  };
  one((rst::ErrorInfoBase*)nullptr, true);
  one((ErrA*)nullptr, a);
  one((ErrB*)nullptr, b);
  one((ErrC*)nullptr, c);
  one((ErrD*)nullptr, d);
}
VF_ENTRY(t03_cast) {
  ErrA a("a");
  ErrB b("b");
  ErrC c("c");
  ErrD d(1);
  switch (vf_choose(4, "class")) {
    case 0: castAll<ErrA>(&a, true, false, false, false); break;
    case 1: castAll<ErrB>(&b, true, true, false, false); break;
    case 2: castAll<ErrC>(&c, true, true, true, false); break;
    default: castAll<ErrD>(&d, false, false, false, true); break;
  }
  vf_reach("t03");
}
