// A01, A02, A03, X01, C01: container helpers, strong aliases, lifetime helpers, hashing, checks.
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "rst/check/check.h"
#include "rst/clone/clone.h"
#include "rst/defer/defer.h"
#include "rst/macros/macros.h"
#include "rst/macros/optimization.h"
#include "rst/memory/memory.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/stl/algorithm.h"
#include "rst/stl/function.h"
#include "rst/stl/hash.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"
#include "rst/type/type.h"
#include "vf.h"

// ---------------------------------------------------------------- A01
namespace {
struct KV { int k; int id; };
std::vector<int> anyVec(uint64_t n) {
  std::vector<int> v(n);
  for (auto& i : v) i = (int)vf_sym(32, "e");
  return v;
}
// independent statements of what the algorithms promise
bool sortedBy(const std::vector<int>& v, bool desc) {
  bool ok = true;
  for (size_t i = 1; i < v.size(); i++) ok &= desc ? v[i - 1] >= v[i] : v[i - 1] <= v[i];
  return ok;
}
bool permutationOf(const std::vector<int>& a, const std::vector<int>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) {   // equal multiplicity of every element
    unsigned x = 0, y = 0;
    for (size_t j = 0; j < a.size(); j++) { x += a[j] == a[i]; y += b[j] == a[i]; }
    ok &= x == y;
  }
  return ok;
}
}  // namespace

VF_ENTRY(a01_sort) {
  const uint64_t n = vf_param(0, 4);
  const auto v = anyVec(n);
  const bool desc = vf_flip("desc");
  const uint64_t kind = vf_choose(3, "container");
  std::vector<int> r;
  if (kind == 0) { r = v; if (desc) rst::c_sort(r, [](int a, int b) { return a > b; }); else rst::c_sort(r); }
  else if (kind == 1) { std::array<int, 4> a{}; std::copy_n(v.begin(), n, a.begin()); if (n != 4) vf_stop(); if (desc) rst::c_sort(a, std::greater<>()); else rst::c_sort(a); r.assign(a.begin(), a.end()); }
  else { if (n != 3) vf_stop(); int a[3] = {v[0], v[1], v[2]}; if (desc) rst::c_sort(a, std::greater<>()); else rst::c_sort(a); r.assign(a, a + 3); }
  vf_assert(sortedBy(r, desc), "A01: c_sort sorts by its comparator");
  vf_assert(permutationOf(v, r), "A01: c_sort keeps exactly the elements");
  for (int i : r) vf_observe("r", (uint32_t)i);
  vf_reach("a01");
}

VF_ENTRY(a01_stable) {
  const uint64_t n = vf_param(0, 4);
  const auto v = anyVec(n);
  std::vector<KV> a;
  for (size_t i = 0; i < n; i++) a.push_back({v[i], (int)i});
  const uint64_t how = vf_choose(3, "how");
  if (how == 2) { auto b = v; rst::c_stable_sort(b); vf_assert(sortedBy(b, false) && permutationOf(v, b), "A01: c_stable_sort sorts"); vf_reach("a01"); return; }
  if (how == 1) rst::c_stable_sort(a, [](const KV& x, const KV& y) { return x.k > y.k; });
  else rst::c_stable_sort(a, [](const KV& x, const KV& y) { return x.k < y.k; });
  unsigned seen = 0;
  for (size_t i = 0; i < n; i++) {
    seen |= 1u << a[i].id;
    vf_assert(a[i].k == v[(size_t)a[i].id], "A01: c_stable_sort keeps exactly the elements");
    if (i) vf_assert(a[i - 1].k == a[i].k ? a[i - 1].id < a[i].id : (a[i - 1].k < a[i].k) == (how == 0), "A01: c_stable_sort keeps the order of equal elements");
  }
  vf_assert(seen == (1u << n) - 1, "A01: c_stable_sort keeps exactly the elements");
  vf_reach("a01");
}

// Many elements: all but one follow a pattern, one is arbitrary.
VF_ENTRY(a01_large) {
  const uint64_t n = vf_param(0, 24), what = vf_choose(4, "what"), mul = 1 + vf_choose(3, "mul"), mod = vf_flip("few") ? 3 : 1000, at = vf_choose(3, "at") * (n - 1) / 2;
  const bool desc = vf_flip("desc");
  std::vector<int> v(n);
  for (size_t i = 0; i < n; i++) v[i] = (int)((mul == 3 ? n - i : i * (2 * mul + 5)) % mod);
  v[at] = (int)vf_sym(32, "e");
  bool ok = true;
  if (what == 0) {
    std::vector<int> r = v;
    if (desc) rst::c_sort(r, std::greater<>()); else rst::c_sort(r);
    vf_assert(sortedBy(r, desc) & permutationOf(v, r), "A01: c_sort keeps exactly the elements");
  } else if (what == 1) {
    std::vector<KV> a;
    for (size_t i = 0; i < n; i++) a.push_back({v[i], (int)i});
    if (desc) rst::c_stable_sort(a, [](const KV& x, const KV& y) { return x.k > y.k; });
    else rst::c_stable_sort(a, [](const KV& x, const KV& y) { return x.k < y.k; });
    uint64_t seen = 0;
    for (size_t i = 0; i < n; i++) {
      seen |= 1ull << a[i].id;
      ok &= a[i].k == v[(size_t)a[i].id];
      if (i) { const bool eq = a[i - 1].k == a[i].k, lt = a[i - 1].k < a[i].k; ok &= (eq & (a[i - 1].id < a[i].id)) | (!eq & (lt != desc)); }
    }
    vf_assert(ok & (seen == (1ull << n) - 1), "A01: c_stable_sort keeps the order of equal elements");
  } else if (what == 2) {
    const int x = v[at];
    size_t want = 0;
    while (want < n && v[want] != x) want++;
    vf_assert((size_t)(rst::c_find_if(v, [&](int e) { return e == x; }) - v.begin()) == want, "A01: c_find_if finds the first match");
  } else {
    size_t i = n;
    for (int e : rst::Reversed(v)) { i--; ok &= e == v[i]; }
    vf_assert(ok && i == 0, "A01: Reversed visits every element once, backwards");
  }
  vf_reach("a01");
}

VF_ENTRY(a01_find) {
  const uint64_t n = vf_param(0, 4), kind = vf_choose(4, "container");
  auto v = anyVec(n);
  const int x = (int)vf_sym(32, "x");
  int calls = 0;
  auto pred = [&](const int& e) { calls++; return e == x; };
  size_t want = 0;
  while (want < n && v[want] != x) want++;
  size_t got = 0;
  if (kind == 0) { auto it = rst::c_find_if(v, pred); got = (size_t)(it - v.begin()); if (want < n) { *it = 5; vf_assert(v[want] == 5, "A01: c_find_if gives access to the element"); } }
  else if (kind == 1) { const auto& c = v; got = (size_t)(rst::c_find_if(c, pred) - c.begin()); }
  else if (kind == 2) { std::list<int> l(v.begin(), v.end()); got = (size_t)std::distance(l.begin(), rst::c_find_if(l, pred)); }
  else { if (n != 3) vf_stop(); int a[3] = {v[0], v[1], v[2]}; got = (size_t)(rst::c_find_if(a, pred) - a); }
  vf_assert(got == want, "A01: c_find_if finds the first match");
  vf_assert(calls == (int)(want < n ? want + 1 : n), "A01: c_find_if asks no further than the first match");
  vf_observe("got", got);
  vf_reach("a01");
}

VF_ENTRY(a01_heap) {
  const uint64_t n = vf_param(0, 4);
  const auto v = anyVec(n);
  std::vector<int> h;
  const bool min = vf_flip("min");
  auto top = [&](const std::vector<int>& c) { int m = c[0]; for (int i : c) m = min ? std::min(m, i) : std::max(m, i); return m; };
  for (int i : v) {
    h.push_back(i);
    if (min) rst::c_push_heap(h, std::greater<>()); else rst::c_push_heap(h, std::less<>());
    vf_assert(h.front() == top(h), "A01: c_push_heap keeps the extreme element in front");
  }
  vf_assert(permutationOf(v, h), "A01: heap operations keep exactly the elements");
  std::vector<int> out;
  while (!h.empty()) {
    const int want = top(h);
    if (min) rst::c_pop_heap(h, std::greater<>()); else rst::c_pop_heap(h, std::less<>());
    vf_assert(h.back() == want, "A01: c_pop_heap moves the extreme element to the back");
    out.push_back(h.back());
    h.pop_back();
    if (!h.empty()) vf_assert(h.front() == top(h), "A01: c_pop_heap leaves a heap");
  }
  vf_assert(permutationOf(v, out), "A01: heap operations keep exactly the elements");
  vf_reach("a01");
}

VF_ENTRY(a01_sorted) {
  const uint64_t n = vf_param(0, 4);
  const auto v = anyVec(n);
  vf_assert(rst::c_is_sorted(v, std::less<>()) == sortedBy(v, false), "A01: c_is_sorted agrees");
  vf_assert(rst::c_is_sorted(v, std::greater<>()) == sortedBy(v, true), "A01: c_is_sorted agrees");
  vf_assert(rst::c_is_sorted(v, [](int a, int b) { return (a & 3) < (b & 3); }) == std::is_sorted(v.begin(), v.end(), [](int a, int b) { return (a & 3) < (b & 3); }), "A01: c_is_sorted agrees");
  vf_reach("a01");
}

namespace {
struct Words {   // a random source that produces arbitrary words, and can be replayed
  using result_type = uint32_t;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
  std::vector<uint32_t>* w; size_t at = 0;
  uint32_t operator()() {
    if (at == w->size()) w->push_back((uint32_t)vf_sym(32, "word"));
    if (w->size() > 6) vf_stop();
    return (*w)[at++];
  }
};
}  // namespace
VF_ENTRY(a01_shuffle) {
  const uint64_t n = vf_param(0, 3);
  std::vector<int> v;
  for (uint64_t i = 0; i < n; i++) v.push_back((int)i);
  std::vector<uint32_t> words;
  auto a = v, b = v;
  Words g{&words}, g2{&words};
  if (vf_flip("array")) { if (n != 3) vf_stop(); int arr[3] = {0, 1, 2}; rst::c_shuffle(arr, g); a.assign(arr, arr + 3); }
  else rst::c_shuffle(a, g);
  std::shuffle(b.begin(), b.end(), g2);
  vf_assert(permutationOf(v, a), "A01: c_shuffle keeps exactly the elements");
  vf_assert(a == b && g.at == g2.at, "A01: c_shuffle is std::shuffle with the given source");
  vf_reach("a01");
}

VF_ENTRY(a01_reversed) {
  const uint64_t n = vf_param(0, 3);
  auto v = anyVec(n);
  const auto copy = v;
  const uint64_t kind = vf_choose(4, "container");
  std::vector<int> out;
  if (kind == 0) for (auto& i : rst::Reversed(v)) { out.push_back(i); i ^= 1; }
  else if (kind == 1) { const auto& c = v; for (const auto& i : rst::Reversed(c)) out.push_back(i); }
  else if (kind == 2) { std::list<int> l(v.begin(), v.end()); for (int i : rst::Reversed(l)) out.push_back(i); }
  else { if (n != 3) vf_stop(); int a[3] = {v[0], v[1], v[2]}; for (int i : rst::Reversed(a)) out.push_back(i); }
  vf_assert(out.size() == n, "A01: reverse iteration visits every element once");
  for (size_t i = 0; i < n; i++) {
    vf_assert(out[i] == copy[n - 1 - i], "A01: reverse iteration visits the elements in reverse order");
    vf_assert(v[i] == (kind == 0 ? copy[i] ^ 1 : copy[i]), "A01: reverse iteration reaches the elements themselves");
    vf_observe("o", (uint32_t)out[i]);
  }
  vf_reach("a01");
}

VF_ENTRY(a01_builder) {
  const uint64_t heap = vf_heap_live();
  {
    const int a = (int)vf_sym(32, "a"), b = (int)vf_sym(32, "b"), c = (int)vf_sym(32, "c");
    const auto v = rst::VectorBuilder<std::unique_ptr<int>>().emplace_back(std::make_unique<int>(a)).emplace_back(new int(b)).emplace_back().emplace_back(std::make_unique<int>(c)).Build();
    vf_assert(v.size() == 4 && *v[0] == a && *v[1] == b && v[2] == nullptr && *v[3] == c, "A01: the builder yields exactly the added elements in order");
    const auto p = rst::VectorBuilder<std::pair<int, int>>().emplace_back(a, b).emplace_back(b, c).Build();
    vf_assert(p.size() == 2 && p[0].first == a && p[0].second == b && p[1].first == b && p[1].second == c, "A01: the builder yields exactly the added elements in order");
    vf_assert(rst::VectorBuilder<int>().Build().empty(), "A01: an empty builder yields an empty vector");
    int got = 0, n = 0;
    std::function<int(int)> f = [&got, &n, a](int x) { got = x; n++; return a; };
    if (vf_flip("null")) f = nullptr;
    const bool null = f == nullptr;
    auto g = rst::TakeFunction(std::move(f));
    vf_assert(f == nullptr, "A01: taking a function leaves the source empty");
    vf_assert((g == nullptr) == null, "A01: taking a function hands it over");
    if (!null) vf_assert(g(c) == a && got == c && n == 1, "A01: taking a function hands it over");
    vf_observe("a", (uint32_t)a);
  }
  vf_assert(vf_heap_live() == heap, "A01: nothing is leaked");
  vf_reach("a01");
}

VF_ENTRY(a01_resize) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t from = vf_choose(5, "from"), to = vf_choose(6, "to");
    static const size_t kF[] = {0, 3, 15, 16, 33}, kT[] = {0, 2, 15, 16, 31, 40};
    std::string s(kF[from], 'x');
    for (auto& c : s) c = (char)vf_sym(8, "c");
    const std::string was = s;
    if (vf_flip("raw")) rst::StringResizeUninitialized(&s, kT[to]); else rst::StringResizeUninitialized(rst::NotNull(&s), kT[to]);
    vf_assert(s.size() == kT[to], "A01: resizing sets the size");
    vf_assert(s.c_str()[s.size()] == 0, "A01: resizing keeps the terminator");
    for (size_t i = 0; i < s.size() && i < was.size(); i++) vf_assert(s[i] == was[i], "A01: resizing keeps the existing prefix");
    for (size_t i = was.size(); i < s.size(); i++) s[i] = 1;
  }
  vf_assert(vf_heap_live() == heap, "A01: nothing is leaked");
  vf_reach("a01");
}

// ---------------------------------------------------------------- A02
template <class U, class F> static void alias(F any) {
  using A = rst::Type<class ATag, U>;
  const U x = any(), y = any();
  const A a(x);
  U moved = y;
  A b(std::move(moved));
  auto compare = [&](const A& p, const A& q, const U& u, const U& v) {
    vf_assert((p == q) == (u == v), "A02: == agrees with the underlying values");
    vf_assert((p != q) == (u != v), "A02: != agrees with the underlying values");
    vf_assert((p < q) == (u < v), "A02: < agrees with the underlying values");
    vf_assert((p <= q) == (u <= v), "A02: <= agrees with the underlying values");
    vf_assert((p > q) == (u > v), "A02: > agrees with the underlying values");
    vf_assert((p >= q) == (u >= v), "A02: >= agrees with the underlying values");
    vf_assert(std::hash<A>()(p) == std::hash<U>()(u), "A02: the hash agrees with the underlying value");
  };
  compare(a, b, x, y);
  compare(b, a, y, x);
  compare(a, a, x, x);
  const A c(b);
  compare(a, c, x, y);
  A d(std::move(b));
  compare(d, a, y, x);
  d = a;
  compare(d, c, x, y);
  A e(c);
  d = std::move(e);
  compare(d, a, y, x);
  compare(d, c, y, static_cast<U>(c));
  vf_reach("a02");
}
static double anyDouble() { uint64_t b = vf_sym(64, "d"); double d; __builtin_memcpy(&d, &b, 8); return d; }
static std::string anyText() {
  std::string s;
  const uint64_t n = vf_choose(3, "len");
  for (uint64_t i = 0; i < n; i++) s += (char)vf_sym(8, "c");
  return s;
}
VF_ENTRY(a02_alias) {
  switch (vf_param(0, 0)) {
    case 0: alias<int>([] { return (int)vf_sym(32, "i"); }); break;
    case 1: alias<uint64_t>([] { return vf_sym(64, "u"); }); break;
    case 2: alias<double>(anyDouble); break;
    case 3: alias<signed char>([] { return (signed char)vf_sym(8, "c"); }); break;
    case 4: alias<std::string>(anyText); break;
    default: {
      const uint64_t heap = vf_heap_live();
      {
        const int v = (int)vf_sym(32, "v");
        using P = rst::Type<class PTag, std::unique_ptr<int>>;
        P p(std::make_unique<int>(v));
        int* raw = p.value().get();
        P q(std::move(p));
        P r;
        r = std::move(q);
        vf_assert(r.value().get() == raw && *r.value() == v, "A02: a move-only alias keeps its value through moves");
      }
      vf_assert(vf_heap_live() == heap, "A02: nothing is leaked");
      vf_reach("a02");
    }
  }
}

// ---------------------------------------------------------------- A03
namespace {
int g_log[16], g_n;
void note(int x) { if (g_n < 16) g_log[g_n] = x; g_n++; }
int deferred(int path, int v, int* at) {
  RST_DEFER([&] { note(1); });
  if (path == 0) return v;
  auto second = [at] { note(2); *at = g_n; };
  RST_DEFER(second);
  {
    RST_DEFER([v] { note(v); });
    if (path == 1) return v + 1u > 0 ? 7 : 8;
    note(3);
  }
  for (int i = 0; i < 2; i++) {
    RST_DEFER([i] { note(10 + i); });
    if (path == 2) break;
    if (path == 3) continue;
    note(20 + i);
  }
  if (path == 4) goto out;
  note(4);
out:
  return v;
}
int g_made, g_gone;
struct Counted {
  explicit Counted(int a, int b) : v(a), w(b), p(new int(a)) { g_made++; }
  Counted(const Counted& o) : v(o.v), w(o.w), p(new int(*o.p)) { g_made++; }
  Counted(Counted&& o) noexcept : v(o.v), w(o.w), p(o.p) { o.p = nullptr; g_made++; }
  ~Counted() { g_gone++; delete p; }
  int v, w;
  int* p;
};
template <size_t N> struct alignas(N) Wide { char c[N]; };
int g_inits;
rst::NoDestructor<Counted>& singleton(int a, int b) {
  static rst::NoDestructor<Counted> c((g_inits++, a), b);
  return c;
}
}  // namespace
VF_ENTRY(a03_defer) {
  g_n = 0;
  const int v = 100 + (int)vf_range(0, 1000, "v");
  const uint64_t path = vf_choose(6, "path");
  int at = -1;
  const int r = deferred((int)path, v, &at);
  static const int want[6][14] = {
      {1, -1}, {0, 2, 1, -1}, {3, 0, 10, 4, 2, 1, -1}, {3, 0, 10, 11, 4, 2, 1, -1}, {3, 0, 20, 10, 21, 11, 2, 1, -1}, {3, 0, 20, 10, 21, 11, 4, 2, 1, -1}};
  int n = 0;
  for (; want[path][n] != -1; n++) vf_assert(n < g_n && g_log[n] == (want[path][n] ? want[path][n] : v), "A03: deferred actions run once, at scope end, in reverse order");
  vf_assert(g_n == n, "A03: deferred actions run exactly once");
  vf_assert(r == (path == 1 ? 7 : v), "A03: deferring does not change the result");
  vf_reach("a03");
}
VF_ENTRY(a03_nodtor) {
  const int a = (int)vf_sym(32, "a"), b = (int)vf_sym(32, "b");
  g_made = g_gone = 0;
  {
    auto& s = singleton(a, b);
    vf_assert(s->v == a && (*s).w == b && *s.get()->p == a, "A03: a never-destroyed object is built from its arguments");
    s->v = b;
    auto& s2 = singleton(0, 0);
    vf_assert(&s2 == &s && g_inits == 1, "A03: a never-destroyed object is constructed once");
    const auto& cs = s2;
    vf_assert(cs->v == b && (*cs).w == b && cs.get().get() == s.get().get(), "A03: a never-destroyed object keeps its content");
    vf_assert(reinterpret_cast<uintptr_t>(s.get().get()) % alignof(Counted) == 0, "A03: properly aligned");
  }
  vf_assert(g_made == 1 && g_gone == 0, "A03: a never-destroyed object is never destroyed");
  {
    static rst::NoDestructor<Wide<64>> w64;
    static char odd[5];
    static rst::NoDestructor<Wide<256>> w256;
    odd[0] = 0;
    vf_assert(alignof(rst::NoDestructor<Wide<64>>) >= 64 && alignof(rst::NoDestructor<Wide<256>>) >= 256 && alignof(rst::NoDestructor<Wide<1>>) >= 1, "A03: properly aligned");
    vf_assert(reinterpret_cast<uintptr_t>(&*w64) % 64 == 0 && reinterpret_cast<uintptr_t>(&*w256) % 256 == 0, "A03: properly aligned");
    w64->c[0] = w256->c[0] = 'x';
  }
  {
    Counted src(a, b);
    alignas(rst::NoDestructor<Counted>) char mem[3][sizeof(rst::NoDestructor<Counted>)];
    using N = rst::NoDestructor<Counted>;
    auto* x = new (mem[0]) N(src);
    auto* y = new (mem[1]) N(std::move(src));
    vf_assert((*x)->v == a && *(*x)->p == a && (*y)->w == b && *(*y)->p == a && (*x)->p != (*y)->p, "A03: a never-destroyed object is built from its arguments");
    delete (*x)->p;
    delete (*y)->p;
    const int gone = g_gone;
    x->~N();
    y->~N();
    vf_assert(g_gone == gone, "A03: a never-destroyed object is never destroyed");
  }
  vf_reach("a03");
}
VF_ENTRY(a03_clone) {
  const uint64_t heap = vf_heap_live();
  {
    std::string s = anyText();
    if (vf_flip("long")) s += "a tail that does not fit into the small buffer";
    const std::string was = s;
    std::string c = rst::Clone(s);
    vf_assert(c == s && c.data() != s.data(), "A03: a clone is an independent equal copy");
    s += 'x';
    vf_assert(c == was, "A03: a clone is an independent equal copy");
    c += 'y';
    vf_assert(s == was + 'x', "A03: a clone is an independent equal copy");
    std::vector<int> v = anyVec(3), w = rst::Clone(v);
    const auto old = v;
    v[1] ^= 1;
    vf_assert(w == old, "A03: a clone is an independent equal copy");
    int* raw = new int((int)vf_sym(32, "r"));
    const int rv = *raw;
    const auto u = vf_flip("nn") ? rst::WrapUnique(raw) : rst::WrapUnique(rst::NotNull<int*>(raw));
    vf_assert(u.get() == raw && *u == rv, "A03: wrapping hands over exactly that object");
  }
  vf_assert(vf_heap_live() == heap, "A03: nothing is leaked");
  vf_reach("a03");
}
VF_ENTRY(a03_wrapnull) {
  vf_reach("a03");
  vf_expect_trap("A03: wrapping null aborts");
  int* p = vf_bool("null") ? nullptr : reinterpret_cast<int*>(64);
  if (p) vf_stop();
  (void)rst::WrapUnique(p);
  vf_fail("A03: wrapping null aborts");
}

// ---------------------------------------------------------------- X01
namespace {
size_t combine(const uint64_t* v, uint64_t n) {
  switch (n) {
    case 0: return rst::HashCombine({});
    case 1: return rst::HashCombine({v[0]});
    case 2: return rst::HashCombine({v[0], v[1]});
    case 3: return rst::HashCombine({v[0], v[1], v[2]});
    case 4: return rst::HashCombine({v[0], v[1], v[2], v[3]});
    default: return rst::HashCombine({v[0], v[1], v[2], v[3], v[4]});
  }
}
}  // namespace
// Equal lists give equal results; two lists that differ in component `param 1` only give different ones.
VF_ENTRY(x01_inject) {
  const uint64_t n = vf_param(0, 2), at = vf_param(1, 0);
  uint64_t a[5], b[5];
  for (uint64_t i = 0; i < n; i++) { a[i] = vf_sym(64, "a"); b[i] = i == at ? vf_sym(64, "b") : a[i]; }
  const size_t x = combine(a, n), y = combine(b, n);
  vf_assert((x == y) == (a[at] == b[at]), "X01: changing one component changes the result");
  if (n == 1) vf_assert(x == std::hash<uint64_t>()(a[0]), "X01: a single component gives its own hash");
  vf_assert(combine(a, 0) == 0, "X01: the empty list gives 0");
  vf_observe("x", x);
  vf_reach("x01");
}
// Neighbouring components of small size may not be exchanged without changing the result.
VF_ENTRY(x01_order) {
  const uint64_t lim = vf_param(0, 64), n = vf_param(1, 2), at = vf_param(2, 0);
  uint64_t v[5];
  for (uint64_t i = 0; i < n; i++) v[i] = 3 * i + 1;
  const uint64_t p = vf_choose(lim, "p"), q = vf_range(0, lim * 8, "q");
  vf_assume(p != q);
  v[at] = p; v[at + 1] = q;
  const size_t x = combine(v, n);
  v[at] = q; v[at + 1] = p;
  const size_t y = combine(v, n);
  vf_assert(x != y, "X01: exchanging two different neighbours changes the result");
  vf_reach("x01");
}
// Component types other than size_t go through their own hash.
VF_ENTRY(x01_types) {
  const int i = (int)vf_sym(32, "i");
  const bool b = vf_bool("b");
  const char c = (char)vf_sym(8, "c");
  const uint64_t want[3] = {std::hash<int>()(i), std::hash<bool>()(b), std::hash<char>()(c)};
  vf_assert(rst::HashCombine({i, b, c}) == combine(want, 3), "X01: every component contributes its own hash");
  int* p = reinterpret_cast<int*>(vf_sym(64, "p"));
  const uint64_t want2[2] = {std::hash<int*>()(p), std::hash<int>()(i)};
  vf_assert(rst::HashCombine({p, i}) == combine(want2, 2), "X01: every component contributes its own hash");
  vf_reach("x01");
}

// ---------------------------------------------------------------- C01
namespace {
#if defined(NDEBUG)
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif
template <class T> void checkMacro(T cond, bool truth) {
  const uint64_t which = vf_choose(3, "macro");
  int evals = 0;
  auto c = [&]() -> T { evals++; return cond; };
  const char* l = "C01: a failed check aborts";
  const bool dies = (which == 0 && !truth) || (which == 1 && kDebug && !truth) || (which == 2 && kDebug);
  if (dies) { vf_reach("aborts"); vf_expect_trap(l); }
  if (which == 0) RST_CHECK(c());
  else if (which == 1) RST_DCHECK(c());
  else RST_NOTREACHED();
  if (dies) vf_fail(l);
  vf_assert(evals == (which == 0 ? 1 : which == 1 ? kDebug : 0), "C01: the condition is evaluated exactly once, or not at all");
  vf_reach("c01");
}
}  // namespace
VF_ENTRY(c01_check) {
  static_assert(RST_BUILDFLAG(DCHECK_IS_ON) == kDebug);
  switch (vf_choose(6, "type")) {
    case 0: { const bool b = vf_bool("b"); checkMacro<bool>(b, b); break; }
    case 1: { const int i = (int)vf_sym(32, "i"); checkMacro<int>(i, i != 0); break; }
    case 2: { const uint64_t i = vf_sym(64, "u"); checkMacro<uint64_t>(i, i != 0); break; }
    case 3: { const unsigned char b = (unsigned char)vf_sym(8, "c"); checkMacro<unsigned char>(b, b != 0); break; }
    case 4: { const double d = anyDouble(); checkMacro<bool>(d < 1, d < 1); break; }
    default: { const int i = (int)vf_sym(32, "i"), j = (int)vf_sym(32, "j"); checkMacro<bool>(i < 0 || j == i, i < 0 || j == i); break; }
  }
}
// Inside if/else without braces, as one statement, and with a condition that contains several operators.
VF_ENTRY(c01_stmt) {
  const int i = (int)vf_sym(32, "i"), j = (int)vf_sym(32, "j");
  const bool outer = vf_flip("outer"), dies = (outer && !(i < 0 || j > 0) ) || (!outer && kDebug && !(i == 1 ? j : i));
  if (dies) { vf_reach("aborts"); vf_expect_trap("C01: a failed check aborts"); }
  int path = 0;
  if (outer)
    RST_CHECK(i < 0 || j > 0);
  else
    RST_DCHECK(i == 1 ? j : i);
  path++;
  if (dies) vf_fail("C01: a failed check aborts");
  vf_assert(!!RST_LIKELY(i < j) == (i < j) && !!RST_UNLIKELY(i < j) == (i < j) && RST_LIKELY_EQ(i, 5) == i, "C01: branch hints do not change a condition");
  vf_assert(path == 1, "C01: control continues after a passed check");
  vf_reach("c01");
}
