// P01-P02: preferences, against a table of registrations and last values.
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "vf.h"

using rst::Preferences;
using rst::Value;

namespace {
enum Kind { kBool, kInt, kDouble, kString, kArray, kObject, kKinds };
struct Content { bool b = false; int i = 0; uint64_t d = 0; std::string s; };
double ofBits(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
// any content of that kind
Content any(uint64_t k) {
  Content c;
  switch (k) {
    case kBool: c.b = vf_bool("b"); break;
    case kInt: c.i = (int)vf_sym(32, "i"); break;
    case kDouble: c.d = vf_sym(64, "d"); vf_assume(((c.d >> 52) & 0x7ff) != 0x7ff); break;
    case kString: c.s.assign(vf_choose(2, "len") ? 20 : 1, 'x'); c.s[0] = (char)vf_sym(8, "s"); break;
    default: c.b = vf_flip("empty"); c.i = (int)vf_sym(32, "i"); break;
  }
  return c;
}
Value::Array arr(const Content& c) { Value::Array a; if (!c.b) a.emplace_back(c.i); return a; }
Value::Object obj(const Content& c) { Value::Object o; if (!c.b) o.try_emplace("k", Value(c.i)); return o; }
void doRegister(Preferences& p, const std::string& n, uint64_t k, const Content& c) {
  switch (k) {
    case kBool: p.RegisterBoolPreference(std::string(n), c.b); break;
    case kInt: p.RegisterIntPreference(std::string(n), c.i); break;
    case kDouble: p.RegisterDoublePreference(std::string(n), ofBits(c.d)); break;
    case kString: p.RegisterStringPreference(std::string(n), std::string(c.s)); break;
    case kArray: p.RegisterArrayPreference(std::string(n), arr(c)); break;
    default: p.RegisterObjectPreference(std::string(n), obj(c)); break;
  }
}
void doSet(Preferences& p, const std::string& n, uint64_t k, const Content& c) {
  switch (k) {
    case kBool: p.SetBool(n, c.b); break;
    case kInt: p.SetInt(n, c.i); break;
    case kDouble: p.SetDouble(n, ofBits(c.d)); break;
    case kString: p.SetString(n, std::string(c.s)); break;
    case kArray: p.SetArray(n, arr(c)); break;
    default: p.SetObject(n, obj(c)); break;
  }
}
bool reads(const Preferences& p, const std::string& n, uint64_t k, const Content& c) {
  switch (k) {
    case kBool: return p.GetBool(n) == c.b;
    case kInt: return p.GetInt(n) == c.i;
    case kDouble: { const double d = p.GetDouble(n); uint64_t b; std::memcpy(&b, &d, 8); return b == c.d; }
    case kString: return p.GetString(n) == c.s;
    case kArray: { const auto& a = p.GetArray(n); return c.b ? a.empty() : a.size() == 1 && a[0].IsInt() && a[0].GetInt() == c.i; }
    default: { const auto& o = p.GetObject(n); return c.b ? o.empty() : o.size() == 1 && o.begin()->first == "k" && o.begin()->second.IsInt() && o.begin()->second.GetInt() == c.i; }
  }
}
void justRead(const Preferences& p, const std::string& n, uint64_t k) {
  switch (k) {
    case kBool: (void)p.GetBool(n); break;
    case kInt: (void)p.GetInt(n); break;
    case kDouble: (void)p.GetDouble(n); break;
    case kString: (void)p.GetString(n); break;
    case kArray: (void)p.GetArray(n); break;
    default: (void)p.GetObject(n); break;
  }
}
// numbers are one type of the value class: int and double mixed on one name are outside the claim
bool sameJson(uint64_t a, uint64_t b) { return a == b || (a <= kDouble && a >= kInt && b <= kDouble && b >= kInt); }

struct Pref { bool reg = false; uint64_t kind = 0; Content c; };
const char* const kNames[] = {"a", "b.c", "b.d", "", "b.c2"};
}  // namespace

// params: 0 steps, 1 names, 2 kinds
VF_ENTRY(p01_history) {
  const uint64_t heap = vf_heap_live();
  {
    Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
    const uint64_t names = vf_param(1, 3), kinds = vf_param(2, kKinds);
    std::vector<Pref> m(names);
    for (uint64_t s = 0, e = vf_param(0, 3); s < e; s++) {
      const uint64_t i = vf_choose(names, "name");
      Pref& x = m[i];
      if (!x.reg) {
        x.reg = true;
        x.kind = vf_choose(kinds, "kind");
        x.c = any(x.kind);
        doRegister(p, kNames[i], x.kind, x.c);
      } else {
        x.c = any(x.kind);
        doSet(p, kNames[i], x.kind, x.c);
      }
      for (uint64_t j = 0; j < names; j++)
        if (m[j].reg) vf_assert(reads(p, kNames[j], m[j].kind, m[j].c), "P01: a preference reads as the last value set, or its default");
    }
  }
  vf_assert(vf_heap_live() == heap, "P01: nothing is leaked");
  vf_reach("p01");
}

// two names of arbitrary bytes, neither inside the other's path: params 0, 1 lengths
VF_ENTRY(p01_names) {
  Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  std::string n[2] = {std::string(vf_param(0, 2), 0), std::string(vf_param(1, 2), 0)};
  for (auto& s : n) vf_sym_bytes(s.data(), s.size(), "name");
  vf_assume(n[0] != n[1]);
  for (int i = 0; i < 2; i++)
    if (n[i].size() > n[1 - i].size()) vf_assume(!(n[i].compare(0, n[1 - i].size(), n[1 - i]) == 0 && n[i][n[1 - i].size()] == '.'));
  int want[2];
  for (int i = 0; i < 2; i++) { want[i] = (int)vf_sym(32, "default"); p.RegisterIntPreference(std::string(n[i]), want[i]); }
  for (int s = 0; s < 3; s++) {
    const uint64_t w = vf_choose(2, "which");
    want[w] = (int)vf_sym(32, "v");
    p.SetInt(n[w], want[w]);
    for (int i = 0; i < 2; i++) vf_assert(p.GetInt(n[i]) == want[i], "P01: setting one preference never changes what another one reads as");
  }
  vf_reach("p01");
}

// A name that lies inside another one's path: recorded as a known finding.
VF_ENTRY(p01_related) {
  Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  p.RegisterIntPreference("a", 1);
  p.RegisterIntPreference("a.b", 2);
  p.SetInt("a.b", 3);
  p.SetInt("a", 4);
  vf_reach("p01");
  vf_assert(p.GetInt("a.b") == 3, "P01: setting 'a' keeps 'a.b'");
}

VF_ENTRY(p01_related2) {
  Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  p.RegisterObjectPreference("a", Value::Object());
  p.RegisterIntPreference("a.b", 2);
  p.SetInt("a.b", 3);
  vf_reach("p01");
  vf_assert(p.GetObject("a").empty(), "P01: setting 'a.b' keeps 'a'");
}

// params: 0 the other names registered before, 1 release build
VF_ENTRY(p02_misuse) {
  Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  Pref x;
  x.kind = vf_choose(kKinds, "kind");
  x.c = any(x.kind);
  doRegister(p, "a.b", x.kind, x.c);
  if (vf_flip("set")) { x.c = any(x.kind); doSet(p, "a.b", x.kind, x.c); }
  if (vf_flip("other")) p.RegisterBoolPreference("c", true);
  const uint64_t k = vf_choose(kKinds, "as");
  static const char* const kUnknown[] = {"a", "a.", "a.bb", "", "b", "a.b.c", "A.b"};
  switch (vf_choose(5, "misuse")) {
    case 0: { const std::string n = kUnknown[vf_choose(7, "n")]; mustAbort("P02: reading an unregistered preference aborts", [&] { justRead(p, n, k); }); }
    case 1: { const std::string n = kUnknown[vf_choose(7, "n")]; const Content c = any(k); mustAbort("P02: writing an unregistered preference aborts", [&] { doSet(p, n, k, c); }); }
    case 2: if (sameJson(k, x.kind)) vf_stop(); mustAbort("P02: reading with a different type aborts", [&] { justRead(p, "a.b", k); });
    case 3: { if (sameJson(k, x.kind)) vf_stop(); const Content c = any(k); mustAbort("P02: writing with a different type aborts", [&] { doSet(p, "a.b", k, c); }); }
    default: { const Content c = any(k); mustAbort("P02: registering a name twice aborts", [&] { doRegister(p, "a.b", k, c); }); }
  }
}

// The same on names of arbitrary bytes. params: 0, 1 lengths
VF_ENTRY(p02_names) {
  Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  std::string n[2] = {std::string(vf_param(0, 2), 0), std::string(vf_param(1, 2), 0)};
  for (auto& s : n) vf_sym_bytes(s.data(), s.size(), "name");
  p.RegisterIntPreference(std::string(n[0]), 5);
  if (vf_flip("set")) p.SetInt(n[0], 6);
  const bool same = n[0] == n[1];
  switch (vf_choose(3, "use")) {
    case 0:
      if (same) { p.SetInt(n[1], 7); vf_assert(p.GetInt(n[0]) == 7, "P02: correct use works"); vf_reach("used"); }
      else mustAbort("P02: writing an unregistered preference aborts", [&] { p.SetInt(n[1], 7); });
      break;
    case 1:
      if (same) { const int v = p.GetInt(n[1]); vf_assert(v == 5 || v == 6, "P02: correct use works"); vf_reach("used"); }
      else mustAbort("P02: reading an unregistered preference aborts", [&] { (void)p.GetInt(n[1]); });
      break;
    default:
      if (same) mustAbort("P02: registering a name twice aborts", [&] { p.RegisterStringPreference(std::string(n[1]), "x"); });
      else { p.RegisterStringPreference(std::string(n[1]), "x"); vf_assert(p.GetString(n[1]) == "x" && p.GetInt(n[0]) >= 5, "P02: correct use works"); vf_reach("used"); }
      break;
  }
}

// A null store is refused; the store sees exactly the paths and values that were set.
namespace {
struct Recorder final : rst::PreferencesStore {
  explicit Recorder(std::vector<std::string>* l, const Value** a) : log(l), answer(a) {}
  rst::Nullable<const Value*> GetValue(std::string_view path) const override { log->push_back("get " + std::string(path)); return *answer; }
  void SetValue(std::string_view path, Value&& value) override { log->push_back("set " + std::string(path) + (value.IsInt() ? " int" : " ?")); }
  std::vector<std::string>* log;
  const Value** answer;
};
}  // namespace
VF_ENTRY(p01_store) {
  const uint64_t heap = vf_heap_live();
  {
    std::vector<std::string> log;
    const Value* answer = nullptr;
    const int d = (int)vf_sym(32, "d"), v = (int)vf_sym(32, "v");
    const Value kept(v);
    {
      Preferences p(std::make_unique<Recorder>(&log, &answer));
      p.RegisterIntPreference("x.y", d);
      vf_assert(log.empty(), "P01: registering stores nothing");
      p.SetInt("x.y", v);
      vf_assert(log.size() == 1 && log[0] == "set x.y int", "P01: a set reaches the store");
      vf_assert(p.GetInt("x.y") == d, "P01: what the store does not hold reads as the default");
      answer = &kept;
      vf_assert(p.GetInt("x.y") == v, "P01: what the store holds is what is read");
    }
  }
  vf_assert(vf_heap_live() == heap, "P01: nothing is leaked");
  vf_reach("p01");
}
