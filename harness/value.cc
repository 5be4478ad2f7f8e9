// V01-V05: the JSON value type, against a plain tree that records what must be stored.
#include <cmath>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "rst/value/value.h"
#include "vf.h"

using rst::Value;
using Type = Value::Type;

namespace {
uint64_t bitsOf(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
double ofBits(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
bool finiteBits(uint64_t b) { return ((b >> 52) & 0x7ff) != 0x7ff; }

struct Tree {
  Type t = Type::kNull;
  bool b = false;
  uint64_t num = 0;              // bits of the number
  std::string s;
  std::vector<Tree> a;           // array elements, or object values
  std::vector<std::string> keys; // sorted, for objects
};
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
#ifdef NDEBUG
  (void)l; (void)f;
  vf_stop();  // a release build promises nothing here
#endif
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}

// the value holds exactly the tree, seen through the public interface
bool holds(const Value& v, const Tree& t) {
  if (v.type() != t.t) return false;
  switch (t.t) {
    case Type::kNull: return v.IsNull();
    case Type::kBool: return v.IsBool() && v.GetBool() == t.b;
    case Type::kNumber: return v.IsNumber() && bitsOf(v.GetDouble()) == t.num;
    case Type::kString: return v.IsString() && v.GetString() == t.s;
    case Type::kArray: {
      const auto& a = v.GetArray();
      if (a.size() != t.a.size()) return false;
      for (size_t i = 0; i < a.size(); i++) if (!holds(a[i], t.a[i])) return false;
      return true;
    }
    case Type::kObject: {
      const auto& o = v.GetObject();
      if (o.size() != t.a.size()) return false;
      size_t i = 0;
      for (const auto& [k, x] : o) {
        if (k != t.keys[i] || !holds(x, t.a[i])) return false;
        i++;
      }
      return true;
    }
  }
  return false;
}
void insertKey(Tree& o, const std::string& k, const Tree& v) {
  size_t i = 0;
  while (i < o.keys.size() && o.keys[i] < k) i++;
  if (i < o.keys.size() && o.keys[i] == k) { o.a[i] = v; return; }
  o.keys.insert(o.keys.begin() + (long)i, k);
  o.a.insert(o.a.begin() + (long)i, v);
}
std::string anyText(bool big) {
  static const uint64_t kLen[] = {0, 2, 20};
  const uint64_t n = kLen[vf_choose(big ? 3 : 2, "len")];
  std::string s(n, 0);
  vf_sym_bytes(s.data(), n, "s");
  return s;
}
// Any value of bounded shape, and its tree.
Value gen(uint64_t depth, uint64_t width, Tree& t, bool big, uint64_t types = 6) {
  t = Tree();
  const uint64_t k = vf_choose(depth ? types : 4, "type");
  t.t = (Type)k;
  switch (t.t) {
    case Type::kNull: return Value();
    case Type::kBool: t.b = vf_bool("b"); return Value(t.b);
    case Type::kNumber:
      t.num = vf_sym(64, "n");
      vf_assume(finiteBits(t.num));
      return Value(ofBits(t.num));
    case Type::kString: t.s = anyText(big); return Value(std::string(t.s));
    case Type::kArray: {
      const uint64_t n = vf_choose(width + 1, "n");
      Value v(Type::kArray);
      t.a.resize(n);
      for (uint64_t i = 0; i < n; i++) v.GetArray().push_back(gen(depth - 1, width, t.a[i], false));
      return v;
    }
    default: {
      const uint64_t n = vf_choose(width + 1, "n");
      Value v(Type::kObject);
      for (uint64_t i = 0; i < n; i++) {
        std::string key(1, (char)vf_sym(8, "k"));
        Tree c;
        Value x = gen(depth - 1, width, c, false);
        insertKey(t, key, c);
        v.GetObject().insert_or_assign(key, std::move(x));
      }
      return v;
    }
  }
}
// Changes something in the value, somewhere.
void disturb(Value& v) {
  switch (v.type()) {
    case Type::kNull: case Type::kBool: case Type::kNumber: v = Value("replaced by a text that needs the heap"); break;
    case Type::kString: if (vf_flip("append")) v.GetString() += "x"; else if (!v.GetString().empty()) v.GetString()[0] ^= 1; else v = Value(1); break;
    case Type::kArray:
      if (!v.GetArray().empty()) { if (vf_flip("deep")) disturb(v.GetArray()[0]); else v.GetArray().pop_back(); }
      else v.GetArray().push_back(Value(true));
      break;
    case Type::kObject:
      if (!v.GetObject().empty()) { if (vf_flip("deep")) disturb(v.GetObject().begin()->second); else v.GetObject().erase(v.GetObject().begin()); }
      else v.SetKey("new", Value());
      break;
  }
}
std::string shortKey(uint64_t most = 2) {
  std::string key(vf_choose(most + 1, "klen"), 0);
  vf_sym_bytes(key.data(), key.size(), "k");
  return key;
}
// A container of n elements of all types in turn, and below one of them the same again; keys of up to 2 arbitrary bytes.
Value genWide(uint64_t depth, uint64_t n, Tree& t, uint64_t keyKind = 0) {
  t = Tree();
  const bool object = vf_flip("object");
  t.t = object ? Type::kObject : Type::kArray;
  Value v(t.t);
  const uint64_t first = vf_choose(6, "first");
  for (uint64_t i = 0; i < n; i++) {
    Tree c;
    Value x;
    if (i == n / 2 && depth) x = genWide(depth - 1, n, c, keyKind);
    else switch ((first + i) % 6) {
      case 0: break;
      case 1: c.t = Type::kBool; c.b = vf_bool("b"); x = Value(c.b); break;
      case 2: c.t = Type::kNumber; c.num = vf_sym(64, "n"); vf_assume(finiteBits(c.num)); x = Value(ofBits(c.num)); break;
      case 3: c.t = Type::kString; c.s.assign(2, 0); vf_sym_bytes(c.s.data(), 2, "s"); x = Value(std::string(c.s)); break;
      case 4: c.t = Type::kArray; x = Value(Type::kArray); break;
      default: c.t = Type::kObject; x = Value(Type::kObject); break;
    }
    if (object) {
      const std::string key = keyKind ? std::string(i % keyKind, (char)('a' + i)) : shortKey();
      insertKey(t, key, c);
      v.GetObject().insert_or_assign(key, std::move(x));
    } else {
      t.a.push_back(c);
      v.GetArray().push_back(std::move(x));
    }
  }
  return v;
}
}  // namespace

// params: 0 depth, 1 width, 2 one container of many elements instead
VF_ENTRY(v01_clone) {
  const uint64_t heap = vf_heap_live();
  {
    Tree t;
    const uint64_t wide = vf_param(2, 0);
    auto v = new Value(wide ? genWide(vf_param(0, 1), vf_param(1, 2), t, wide - 1) : gen(vf_param(0, 1), vf_param(1, 2), t, true));
    vf_assert(holds(*v, t), "V01: a value holds what it was built from");
    auto c = new Value(v->Clone());
    vf_assert(holds(*c, t), "V01: a clone has exactly the original's content");
    vf_assert(holds(*v, t), "V01: cloning does not change the original");
    vf_assert(*c == *v && *v == *c && !(*c != *v), "V01: a clone compares equal to the original");
    Value* changed = vf_flip("which") ? c : v;
    Value* other = changed == c ? v : c;
    const uint64_t what = vf_choose(3, "what");
    if (what == 0) disturb(*changed);
    else if (what == 1) *changed = Value();
    else { delete changed; changed = nullptr; }
    vf_assert(holds(*other, t), "V01: changing or destroying one copy is invisible through the other");
    vf_observe("type", (uint64_t)other->type());
    delete other;
    delete changed;
  }
  vf_assert(vf_heap_live() == heap, "V01: nothing is leaked");
  vf_reach("v01");
}

VF_ENTRY(v01_clone_static) {
  const uint64_t heap = vf_heap_live();
  {
    Tree t;
    Value v = gen(1, 2, t, true);
    if (v.IsArray()) {
      Value c(Value::Clone(v.GetArray()));
      vf_assert(holds(c, t) && c == v, "V01: a cloned array has exactly the original's content");
      disturb(v);
      vf_assert(holds(c, t), "V01: changing or destroying one copy is invisible through the other");
    } else if (v.IsObject()) {
      Value c(Value::Clone(v.GetObject()));
      vf_assert(holds(c, t) && c == v, "V01: a cloned object has exactly the original's content");
      disturb(v);
      vf_assert(holds(c, t), "V01: changing or destroying one copy is invisible through the other");
    }
  }
  vf_assert(vf_heap_live() == heap, "V01: nothing is leaked");
  vf_reach("v01");
}

// every pair of types: move construction and assignment
VF_ENTRY(v01_moves) {
  const uint64_t heap = vf_heap_live();
  {
    Tree t, u;
    Value v = gen(vf_param(0, 1), vf_param(1, 1), t, true);
    const uint64_t how = vf_choose(3, "how");
    if (how == 0) {
      Value w(std::move(v));
      vf_assert(holds(w, t), "V01: move construction transfers exactly the content");
    } else {
      Value w = gen(1, 1, u, false);
      w = std::move(v);
      vf_assert(holds(w, t), "V01: move assignment transfers exactly the content");
      if (how == 2) {
        Tree x;
        v = gen(0, 0, x, false);   // a moved-from value can be assigned again
        vf_assert(holds(v, x) && holds(w, t), "V05: a moved-from value can be reassigned");
      }
    }
  }
  vf_assert(vf_heap_live() == heap, "V01: nothing is leaked");
  vf_reach("v01");
}

// ---------------------------------------------------------------- V02
static constexpr int64_t kMaxSafe = (int64_t{1} << 53) - 1;
VF_ENTRY(v02_int64) {
  const int64_t x = (int64_t)vf_sym(64, "x");
  const bool ok = x >= -kMaxSafe && x <= kMaxSafe;
  if (!ok) mustAbort("V02: an integer that is not exact in JSON aborts", [&] { Value v(x); });
  const Value v(x);
  vf_assert(v.type() == Type::kNumber && v.IsInt64(), "V02: a stored integer reports being one");
  vf_assert(v.GetInt64() == x, "V02: a stored integer reads back exactly");
  vf_assert(v.IsInt() == (x >= -2147483648LL && x <= 2147483647LL), "V02: reports being an int exactly when it fits");
  vf_assert(v.GetDouble() == (double)x, "V02: a stored integer reads back exactly");
  vf_observe("x", (uint64_t)v.GetInt64());
  vf_reach("v02");
}
VF_ENTRY(v02_int32) {
  const int x = (int)vf_sym(32, "x");
  const Value v(x);
  vf_assert(v.IsInt() && v.IsInt64() && v.GetInt() == x && v.GetInt64() == x, "V02: a stored int reads back exactly");
  vf_observe("x", (uint32_t)v.GetInt());
  vf_reach("v02");
}
VF_ENTRY(v02_double) {
  const uint64_t b = vf_sym(64, "x");
  const double d = ofBits(b);
  if (!finiteBits(b)) mustAbort("V02: a number that is not finite aborts", [&] { Value v(d); });
  const Value v(d);
  vf_assert(v.IsNumber() && bitsOf(v.GetDouble()) == b, "V02: a stored number reads back exactly");
  const bool integral = std::trunc(d) == d;
  const bool i64 = integral && d >= -9007199254740991.0 && d <= 9007199254740991.0;
  const bool i32 = integral && d >= -2147483648.0 && d <= 2147483647.0;
  vf_assert(v.IsInt64() == i64, "V02: reports being a 64-bit integer exactly when it is exact");
  vf_assert(v.IsInt() == i32, "V02: reports being an int exactly when it is exact");
  const uint64_t how = vf_choose(3, "how");
  if (how == 1) {
    if (!i64) mustAbort("V02: reading a number that is no 64-bit integer as one aborts", [&] { (void)v.GetInt64(); });
    const int64_t r = v.GetInt64();
    vf_assert((double)r == d, "V02: the integer read is the number stored");
  } else if (how == 2) {
    if (!i32) mustAbort("V02: reading a number that is no int as one aborts", [&] { (void)v.GetInt(); });
    const int r = v.GetInt();
    vf_assert((double)r == d, "V02: the integer read is the number stored");
  }
  vf_reach("v02");
}
// every getter on every type
VF_ENTRY(v02_getters) {
  Tree t;
  Value v = gen(1, 1, t, true);
  const Value& c = v;
  const uint64_t g = vf_choose(7, "getter");
  const bool mut = vf_flip("mutable");
  static const Type kWant[] = {Type::kBool, Type::kNumber, Type::kNumber, Type::kNumber, Type::kString, Type::kArray, Type::kObject};
  vf_assert(c.IsNull() == (t.t == Type::kNull) && c.IsBool() == (t.t == Type::kBool) && c.IsNumber() == (t.t == Type::kNumber) && c.IsString() == (t.t == Type::kString) && c.IsArray() == (t.t == Type::kArray) && c.IsObject() == (t.t == Type::kObject), "V02: the type predicates agree with the content");
  if (t.t != Type::kNumber) vf_assert(!c.IsInt() && !c.IsInt64(), "V02: only numbers are integers");
  auto get = [&] {
    switch (g) {
      case 0: (void)c.GetBool(); break;
      case 1: (void)c.GetInt64(); break;
      case 2: (void)c.GetInt(); break;
      case 3: (void)c.GetDouble(); break;
      case 4: if (mut) v.GetString() += "y"; else (void)c.GetString(); break;
      case 5: if (mut) v.GetArray().clear(); else (void)c.GetArray(); break;
      default: if (mut) v.GetObject().clear(); else (void)c.GetObject(); break;
    }
  };
  if (t.t != kWant[g]) mustAbort("V02: a getter of another type aborts", get);
  if (g == 1 || g == 2) vf_stop();   // by value: v02_double
  get();
  if (mut && g == 4) vf_assert(c.GetString() == t.s + "y", "V02: a getter gives access to the stored content");
  if (mut && g >= 5) vf_assert(g == 5 ? c.GetArray().empty() : c.GetObject().empty(), "V02: a getter gives access to the stored content");
  if (!mut) vf_assert(holds(v, t), "V02: a getter does not change the value");
  vf_reach("v02");
}
VF_ENTRY(v02_defaults) {
  const auto t = (Type)vf_choose(6, "type");
  Value v(t);
  Tree x;
  x.t = t;
  vf_assert(holds(v, x), "V02: the default of a type is its empty value");
  const char* text = "text";
  vf_assert(Value(text).GetString() == "text" && Value("").GetString().empty(), "V02: a text is stored as that text");
  Value::Array a;
  a.push_back(Value(7));
  Value va(std::move(a));
  vf_assert(va.IsArray() && va.GetArray().size() == 1 && va.GetArray()[0].GetInt() == 7, "V02: an array is stored as that array");
  vf_reach("v02");
}

// ---------------------------------------------------------------- V03
namespace {
int cmp(const Tree& x, const Tree& y) {   // -1, 0, 1: the order the property describes
  if (x.t != y.t) return x.t < y.t ? -1 : 1;
  switch (x.t) {
    case Type::kNull: return 0;
    case Type::kBool: return (int)x.b - (int)y.b;
    case Type::kNumber: { const double a = ofBits(x.num), b = ofBits(y.num); return a < b ? -1 : a == b ? 0 : 1; }
    case Type::kString: {
      const size_t n = std::min(x.s.size(), y.s.size());
      for (size_t i = 0; i < n; i++) if (x.s[i] != y.s[i]) return (unsigned char)x.s[i] < (unsigned char)y.s[i] ? -1 : 1;
      return x.s.size() < y.s.size() ? -1 : x.s.size() > y.s.size();
    }
    default: {
      const size_t n = std::min(x.a.size(), y.a.size());
      for (size_t i = 0; i < n; i++) {
        if (x.t == Type::kObject) {
          Tree p, q;
          p.t = q.t = Type::kString; p.s = x.keys[i]; q.s = y.keys[i];
          if (const int c = cmp(p, q)) return c;
        }
        if (const int c = cmp(x.a[i], y.a[i])) return c;
      }
      return x.a.size() < y.a.size() ? -1 : x.a.size() > y.a.size();
    }
  }
}
void laws(const Value& v, const Value& w, int c) {
  vf_assert((v == w) == (c == 0), "V03: == holds exactly for equal content");
  vf_assert((v < w) == (c < 0), "V03: < is the order by type and content");
  vf_assert((v != w) == (c != 0) && (v > w) == (c > 0) && (v <= w) == (c <= 0) && (v >= w) == (c >= 0), "V03: the other operators agree with == and <");
}
}  // namespace
// two containers of the same kind that differ anywhere. params: 0 most elements
VF_ENTRY(v03_wide) {
  const bool object = vf_flip("object");
  const uint64_t nested = vf_choose(3, "nested");
  auto make = [&](Tree& t) {
    t.t = object ? Type::kObject : Type::kArray;
    Value v(t.t);
    const uint64_t n = vf_choose(vf_param(0, 4) + 1, "n");
    for (uint64_t i = 0; i < n; i++) {
      Tree c;
      c.t = Type::kNumber; c.num = vf_sym(64, "n"); vf_assume(finiteBits(c.num));
      Value x(ofBits(c.num));
      if (i == nested) {
        Value y(Type::kArray);
        y.GetArray().push_back(std::move(x));
        x = std::move(y);
        Tree a;
        a.t = Type::kArray;
        a.a.push_back(c);
        c = a;
      }
      if (object) {
        // rising keys, so that only the position decides
        const std::string key = std::string(1, (char)('a' + 2 * i)) + (i == 1 ? std::string(vf_choose(2, "longer"), 'x') : std::string());
        insertKey(t, key, c);
        v.SetKey(std::string(key), std::move(x));
      } else { t.a.push_back(c); v.GetArray().push_back(std::move(x)); }
    }
    return v;
  };
  Tree t, u;
  const Value v = make(t), w = make(u);
  const int c = cmp(t, u);
  laws(v, w, c);
  laws(w, v, -c);
  vf_assert(v == v && !(v < v) && v <= v, "V03: == is reflexive and < irreflexive");
  vf_reach("v03");
}
namespace {
// an array, object or text of n elements, of which number at holds mid. how: 0 array, 1 object, 2 text, 3 as deep as wide
Value bulk(uint64_t how, uint64_t n, uint64_t at, int mid) {
  if (how == 0) {
    Value v(Type::kArray);
    for (uint64_t i = 0; i < n; i++) v.GetArray().push_back(Value((int)(i == at ? mid : (int)i)));
    return v;
  }
  if (how == 1) {
    Value v(Type::kObject);
    for (uint64_t i = 0; i < n; i++) {
      const uint64_t k = i * 7 % n;    // not in the order of the keys; n is no multiple of 7
      v.SetKey(std::string{(char)('a' + k / 20), (char)('a' + k % 20)}, Value((int)(k == at ? mid : (int)k)));
    }
    return v;
  }
  if (how == 2) {
    std::string t(n, 'm');
    if (at < n) t[at] = (char)mid;
    return Value(std::move(t));
  }
  Value v(mid);
  for (uint64_t i = 0; i < n; i++) {
    Value w(i % 2 ? Type::kArray : Type::kObject);
    if (i % 2) w.GetArray().push_back(std::move(v)); else w.SetKey("k", std::move(v));
    v = std::move(w);
  }
  return v;
}
}  // namespace
// two large values that differ at one place at most, or in size. params: 0 size
VF_ENTRY(v03_large) {
  const uint64_t how = vf_choose(4, "how"), n = how == 3 ? 8 : vf_param(0, 9);  // < takes two to the depth steps
  static const uint64_t places = 5;
  const uint64_t w = how == 3 ? 0 : vf_choose(places, "at"), at = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? n - 2 : n - 1;
  const int x = (int)vf_range(0, 100, "x"), y = (int)vf_range(0, 100, "y");
  const bool longer = how < 3 && vf_flip("longer");
  const Value a = bulk(how, n, at, x), b = bulk(how, n, at, y);
  if (!longer) {
    laws(a, b, x < y ? -1 : x > y ? 1 : 0);
    laws(b, a, x < y ? 1 : x > y ? -1 : 0);
  } else if (how != 1) {
    const Value c = bulk(how, n + 1, at, y);
    const int want = x < y ? -1 : x > y ? 1 : -1;
    laws(a, c, want);
    laws(c, a, -want);
  }
  vf_reach("v03");
}
// a large value is cloned. params: 0 size
VF_ENTRY(v01_large) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t n = vf_param(0, 9), how = vf_choose(4, "how"), at = n - 1 - vf_choose(2, "at");
    const int x = (int)vf_range(0, 100, "x"), y = (int)vf_range(0, 100, "y");
    Value a = bulk(how, n, at, x);
    Value c = a.Clone();
    const Value want = bulk(how, n, at, x);
    vf_assert(c == want, "V01: a clone has exactly the original's content");
    if (how == 0) { vf_assert(c.GetArray().size() == n, "V01: a clone has exactly the original's content"); a.GetArray()[at] = Value(y); }
    if (how == 1) { vf_assert(c.GetObject().size() == n, "V01: a clone has exactly the original's content"); a.SetKey(std::string{(char)('a' + at / 20), (char)('a' + at % 20)}, Value(y)); }
    if (how >= 2) a = Value(y);
    vf_assert(c == want, "V01: changing or destroying one copy is invisible through the other");
    Value m(std::move(c));
    vf_assert(m == want, "V01: move construction transfers exactly the content");
  }
  vf_assert(vf_heap_live() == heap, "V01: nothing is leaked");
  vf_reach("v01");
}
// every pair of values of bounded shape against the order described; params: 0 depth, 1 width
VF_ENTRY(v03_pairs) {
  Tree t, u;
  const Value v = gen(vf_param(0, 1), vf_param(1, 1), t, false);
  const Value w = gen(vf_param(0, 1), vf_param(1, 1), u, false);
  const int c = cmp(t, u);
  laws(v, w, c);
  laws(w, v, -c);
  vf_assert(v == v && !(v < v) && v <= v, "V03: == is reflexive and < irreflexive");
  vf_observe("eq", c == 0);
  vf_reach("v03");
}
// transitivity and trichotomy over triples of scalars, stated directly
VF_ENTRY(v03_triples) {
  const uint64_t k = vf_param(0, 2);
  auto mk = [&](const char*) -> Value {
    if (k == 2) { const uint64_t b = vf_sym(64, "n"); vf_assume(finiteBits(b)); return Value(ofBits(b)); }
    if (k == 1) return Value(vf_bool("b"));
    if (k == 3) { std::string s(vf_choose(3, "len"), 0); vf_sym_bytes(s.data(), s.size(), "s"); return Value(std::move(s)); }
    Value v(Type::kArray);
    for (uint64_t n = vf_choose(3, "n"); n; n--) { const uint64_t b = vf_sym(64, "n"); vf_assume(finiteBits(b)); v.GetArray().push_back(Value(ofBits(b))); }
    return v;
  };
  const Value a = mk("a"), b = mk("b"), c = mk("c");
  const bool lab = a < b, lba = b < a, eab = a == b, lbc = b < c, ebc = b == c, lac = a < c, eac = a == c;
  vf_assert((int)lab + (int)lba + (int)eab == 1, "V03: exactly one of <, ==, > holds");
  vf_assert(eab == (b == a), "V03: == is symmetric");
  vf_assert(!(lab && lbc) || lac, "V03: < is transitive");
  vf_assert(!(eab && ebc) || eac, "V03: == is transitive");
  vf_assert(!(eab && lbc) || lac, "V03: equal values are interchangeable");
  vf_reach("v03");
}

// ---------------------------------------------------------------- V04
namespace {
const char kAlpha[] = {'a', 'b', '.'};
std::string word(uint64_t maxlen, bool dots, const char* name) {
  const uint64_t n = vf_choose(maxlen + 1, name);
  std::string s;
  for (uint64_t i = 0; i < n; i++) s += kAlpha[vf_choose(dots ? 3 : 2, name)];
  return s;
}
const Tree* child(const Tree& o, const std::string& k) {
  for (size_t i = 0; i < o.keys.size(); i++) if (o.keys[i] == k) return &o.a[i];
  return nullptr;
}
Tree* child(Tree& o, const std::string& k) { return const_cast<Tree*>(child(const_cast<const Tree&>(o), k)); }
std::vector<std::string> splitPath(const std::string& p) {
  std::vector<std::string> r(1);
  for (char c : p) if (c == '.') r.emplace_back(); else r.back() += c;
  return r;
}
const Tree* lookup(const Tree& o, const std::string& p) {
  const Tree* t = &o;
  for (const auto& k : splitPath(p)) {
    if (t->t != Type::kObject) return nullptr;
    t = child(*t, k);
    if (!t) return nullptr;
  }
  return t;
}
void assignPath(Tree& o, const std::string& p, const Tree& v) {
  const auto ks = splitPath(p);
  Tree* t = &o;
  for (size_t i = 0; i + 1 < ks.size(); i++) {
    Tree* c = child(*t, ks[i]);
    if (!c || c->t != Type::kObject) { Tree e; e.t = Type::kObject; insertKey(*t, ks[i], e); c = child(*t, ks[i]); }
    t = c;
  }
  insertKey(*t, ks.back(), v);
}
Value leaf(Tree& t) {
  const uint64_t k = vf_choose(4, "leaf");
  t = Tree();
  if (k == 0) { t.t = Type::kNumber; t.num = vf_sym(64, "n"); vf_assume(finiteBits(t.num)); return Value(ofBits(t.num)); }
  if (k == 1) { t.t = Type::kString; t.s.assign(2, 0); vf_sym_bytes(t.s.data(), 2, "s"); return Value(std::string(t.s)); }
  if (k == 2) { t.t = Type::kObject; return Value(Type::kObject); }
  t.t = Type::kBool; t.b = vf_bool("b");
  return Value(t.b);
}
void typedLookups(const Value& v, const std::string& key, const Tree* want) {
  const Value& c = v;
  const auto any = c.FindKey(key);
  vf_assert((any != nullptr) == (want != nullptr), "V04: a lookup finds a key exactly when it is there");
  for (int ty = 0; ty < 6; ty++) {
    const auto r = c.FindKeyOfType(key, (Type)ty);
    vf_assert((r != nullptr) == (want && (int)want->t == ty), "V04: a typed lookup succeeds exactly for the stored type");
    if (r != nullptr) vf_assert(r.get() == any.get(), "V04: a typed lookup finds the stored value");
  }
  vf_assert((c.FindArrayKey(key) != nullptr) == (want && want->t == Type::kArray) && (c.FindObjectKey(key) != nullptr) == (want && want->t == Type::kObject), "V04: a typed lookup succeeds exactly for the stored type");
  const auto b = c.FindBoolKey(key);
  vf_assert(b.has_value() == (want && want->t == Type::kBool), "V04: a typed lookup succeeds exactly for the stored type");
  if (b) vf_assert(*b == want->b, "V04: a typed lookup returns the stored content");
  const auto s = c.FindStringKey(key);
  vf_assert((s != nullptr) == (want && want->t == Type::kString), "V04: a typed lookup succeeds exactly for the stored type");
  if (s != nullptr) vf_assert(*s == want->s, "V04: a typed lookup returns the stored content");
  const auto d = c.FindDoubleKey(key);
  vf_assert(d.has_value() == (want && want->t == Type::kNumber), "V04: a typed lookup succeeds exactly for the stored type");
  if (d) vf_assert(bitsOf(*d) == want->num, "V04: a typed lookup returns the stored content");
  const double n = want && want->t == Type::kNumber ? ofBits(want->num) : 0.5;
  const auto i = c.FindIntKey(key);
  const auto j = c.FindInt64Key(key);
  const bool integral = std::trunc(n) == n;
  vf_assert(i.has_value() == (integral && n >= -2147483648.0 && n <= 2147483647.0), "V04: an int lookup succeeds exactly for numbers that are ints");
  vf_assert(j.has_value() == (integral && n >= -9007199254740991.0 && n <= 9007199254740991.0), "V04: a 64-bit lookup succeeds exactly for numbers that are integers");
  if (i) vf_assert((double)*i == n, "V04: a typed lookup returns the stored content");
  if (j) vf_assert((double)*j == n, "V04: a typed lookup returns the stored content");
}
}  // namespace
// a sequence of edits, then every kind of lookup. params: 0 edits, 1 path length, 2 key length
VF_ENTRY(v04_edits) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t n = vf_param(0, 2), plen = vf_param(1, 3), klen = vf_param(2, 1);
    Value v(Type::kObject);
    Tree t;
    t.t = Type::kObject;
    for (uint64_t i = 0; i < n; i++) {
      const uint64_t op = vf_choose(3, "op");
      Tree l;
      if (op == 0) {
        const std::string p = word(plen, true, "path");
        Value x = leaf(l);
        const rst::NotNull<Value*> at = v.SetPath(p, std::move(x));
        assignPath(t, p, l);
        const auto found = v.FindPath(p);
        vf_assert(found == at.get() && holds(*at, l), "V04: a path that was set is found and holds the value");
      } else if (op == 1) {
        const std::string k = word(klen, true, "key");
        Value x = leaf(l);
        const rst::NotNull<Value*> at = v.SetKey(std::string(k), std::move(x));
        insertKey(t, k, l);
        const auto found = v.FindKey(k);
        vf_assert(found == at.get() && holds(*at, l), "V04: a key that was set is found and holds the value");
      } else {
        const std::string k = word(klen, true, "key");
        size_t at = 0;
        while (at < t.keys.size() && t.keys[at] != k) at++;
        const bool there = at < t.keys.size();
        vf_assert(v.RemoveKey(k) == there, "V04: removing tells whether the key was there");
        if (there) { t.keys.erase(t.keys.begin() + (long)at); t.a.erase(t.a.begin() + (long)at); }
      }
      vf_assert(holds(v, t), "V04: an edit changes exactly what it names");
    }
    const std::string p = word(plen, true, "lookup");
    const Value& c = v;
    const auto r = c.FindPath(p);
    const Tree* want = lookup(t, p);
    vf_assert((r != nullptr) == (want != nullptr), "V04: a path is found exactly when it is there");
    if (r != nullptr) vf_assert(holds(*r, *want), "V04: a path lookup gives what is stored");
    vf_assert(v.FindPath(p) == r.get(), "V04: the two forms of lookup agree");
    vf_assert(holds(v, t), "V04: lookups never modify the object");
    vf_observe("found", want != nullptr);
  }
  vf_assert(vf_heap_live() == heap, "V04: nothing is leaked");
  vf_reach("v04");
}
// One edit of an object with several members of arbitrary keys. params: 0 members, 1 longest key, or 0 for one letter each, all different
VF_ENTRY(v04_members) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t n = vf_param(0, 3);
    Value v(Type::kObject);
    Tree t;
    t.t = Type::kObject;
    std::vector<std::string> keys;
    for (uint64_t i = 0; i < n; i++) {
      std::string k = vf_param(1, 0) ? shortKey(vf_param(1, 0)) : std::string(1, (char)('a' + vf_choose(n, "k")));
      if (!vf_param(1, 0)) for (const auto& o : keys) vf_assume(o != k);
      keys.push_back(k);
      Tree l;
      l.t = Type::kNumber; l.num = bitsOf((double)i);
      v.SetKey(std::string(k), Value((double)i));
      insertKey(t, k, l);
    }
    vf_assert(holds(v, t), "V04: an edit changes exactly what it names");
    const uint64_t which = vf_choose(n + 1, "which");
    const std::string k = which < n ? keys[which] : vf_param(1, 0) ? shortKey(vf_param(1, 0)) : std::string("q");
    size_t at = 0;
    while (at < t.keys.size() && t.keys[at] != k) at++;
    const bool there = at < t.keys.size();
    vf_assert((v.FindKey(k) != nullptr) == there, "V04: a lookup finds a key exactly when it is there");
    if (vf_flip("remove")) {
      vf_assert(v.RemoveKey(k) == there, "V04: removing tells whether the key was there");
      if (there) { t.keys.erase(t.keys.begin() + (long)at); t.a.erase(t.a.begin() + (long)at); }
    } else {
      Tree l;
      Value x = leaf(l);
      v.SetKey(std::string(k), std::move(x));
      insertKey(t, k, l);
    }
    vf_assert(holds(v, t), "V04: an edit changes exactly what it names");
    vf_observe("size", t.keys.size());
  }
  vf_assert(vf_heap_live() == heap, "V04: nothing is leaked");
  vf_reach("v04");
}
// Paths of many levels. params: 0 levels
VF_ENTRY(v04_deep) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t n = vf_param(0, 4);
    Value v(Type::kObject);
    Tree t;
    t.t = Type::kObject;
    auto path = [&](uint64_t levels) {
      std::string p;
      for (uint64_t i = 0; i < levels; i++) {
        if (i) p += '.';
        const uint64_t k = vf_choose(3, "key");
        if (k) p += std::string(k, 'a');
      }
      return p;
    };
    for (uint64_t i = 0; i < 2; i++) {
      const std::string p = path(i ? 1 + vf_choose(n, "levels") : n);
      Tree l;
      Value x = leaf(l);
      const rst::NotNull<Value*> at = v.SetPath(p, std::move(x));
      assignPath(t, p, l);
      vf_assert(v.FindPath(p) == at.get() && holds(*at, l), "V04: a path that was set is found and holds the value");
      vf_assert(holds(v, t), "V04: an edit changes exactly what it names");
    }
  }
  vf_assert(vf_heap_live() == heap, "V04: nothing is leaked");
  vf_reach("v04");
}
// typed lookups on one stored value of any type; keys contain dots too
VF_ENTRY(v04_typed) {
  const uint64_t heap = vf_heap_live();
  {
    Value v(Type::kObject);
    Tree t, u;
    t.t = Type::kObject;
    const std::string k1 = vf_flip("dotted") ? "x.y" : "x";
    Value x = gen(1, 1, u, false);
    v.SetKey(std::string(k1), std::move(x));
    insertKey(t, k1, u);
    v.SetKey("other", Value(true));
    Tree o;
    o.t = Type::kBool; o.b = true;
    insertKey(t, "other", o);
    const uint64_t k = vf_choose(4, "key");
    static const char* const kKeys[] = {"x", "x.y", "missing", ""};
    typedLookups(v, kKeys[k], child(t, kKeys[k]));
    vf_assert(holds(v, t), "V04: lookups never modify the object");
  }
  vf_assert(vf_heap_live() == heap, "V04: nothing is leaked");
  vf_reach("v04");
}
// arbitrary bytes in one path of bounded length: dots separate, every other byte belongs to a key
VF_ENTRY(v04_bytes) {
  const uint64_t n = vf_param(0, 3);
  std::string p(n, 0), q(n, 0);
  vf_sym_bytes(p.data(), n, "p");
  vf_sym_bytes(q.data(), n, "q");
  Value v(Type::kObject);
  Tree t, l;
  t.t = Type::kObject;
  l.t = Type::kBool;
  l.b = true;
  const auto at = v.SetPath(p, Value(true));
  assignPath(t, p, l);
  vf_assert(holds(v, t), "V04: an edit changes exactly what it names");
  vf_assert(v.FindPath(p) == at.get(), "V04: a path that was set is found and holds the value");
  const Tree* want = lookup(t, q);
  const auto r = v.FindPath(q);
  vf_assert((r != nullptr) == (want != nullptr), "V04: a path is found exactly when it is there");
  if (r != nullptr) vf_assert(holds(*r, *want), "V04: a path lookup gives what is stored");
  vf_reach("v04");
}
VF_ENTRY(v04_abort) {
  Tree t;
  Value v = gen(1, 1, t, false);
  const uint64_t op = vf_choose(6, "op");
  if (t.t == Type::kObject) vf_stop();
  mustAbort("V04: object operations on another type abort", [&] {
    switch (op) {
      case 0: (void)v.FindKey("a"); break;
      case 1: (void)v.FindPath("a"); break;
      case 2: (void)v.FindBoolKey("a"); break;
      case 3: v.SetKey("a", Value()); break;
      case 4: v.SetPath("a", Value()); break;
      default: (void)v.RemoveKey("a"); break;
    }
  });
}

// ---------------------------------------------------------------- V05
namespace {
Value make(uint64_t k, Tree& t) {
  t = Tree();
  t.t = (Type)k;
  switch (t.t) {
    case Type::kNull: return Value();
    case Type::kBool: t.b = vf_bool("b"); return Value(t.b);
    case Type::kNumber: t.num = vf_sym(64, "n"); vf_assume(finiteBits(t.num)); return Value(ofBits(t.num));
    case Type::kString: t.s = "a text that needs the heap!"; t.s[3] = (char)vf_sym(8, "s"); return Value(std::string(t.s));
    case Type::kArray: {
      Value v(Type::kArray);
      t.a.resize(2);
      t.a[0].t = Type::kString; t.a[0].s = std::string(20, (char)vf_sym(8, "s")); t.a[1].t = Type::kArray;
      t.a[1].a.resize(1); t.a[1].a[0].t = Type::kBool; t.a[1].a[0].b = true;
      v.GetArray().push_back(Value(std::string(t.a[0].s)));
      v.GetArray().push_back(Value(Type::kArray));
      v.GetArray()[1].GetArray().push_back(Value(true));
      return v;
    }
    default: {
      Value v(Type::kObject);
      Tree s, o, b;
      s.t = Type::kString; s.s = std::string(20, (char)vf_sym(8, "s"));
      o.t = Type::kObject;
      b.t = Type::kBool;
      b.b = true;
      insertKey(o, "in", b);
      insertKey(t, "s", s);
      insertKey(t, "o", o);
      v.SetKey("s", Value(std::string(s.s)));
      v.SetPath("o.in", Value(true));
      return v;
    }
  }
}
}  // namespace
// any sequence of assignments and edits on two values. params: 0 steps
VF_ENTRY(v05_history) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t steps = vf_param(0, 3);
    Value v[2];
    Tree t[2];
    bool known[2] = {true, true};
    for (uint64_t i = 0; i < steps; i++) {
      const uint64_t op = vf_choose(8, "op"), x = i == 0 ? 0 : vf_choose(2, "x"), y = 1 - x;
      if (op == 0) {
        v[x] = make(vf_choose(6, "type"), t[x]);
        known[x] = true;
      } else if (op == 1) {
        if (!known[y]) vf_stop();
        v[x] = std::move(v[y]);
        t[x] = t[y]; known[x] = true; known[y] = false;
      } else if (op == 2) {          // from its own element
        if (!known[x]) vf_stop();
        const uint64_t e = vf_choose(2, "elem");
        if (t[x].t == Type::kArray) {
          if (e >= t[x].a.size()) vf_stop();
          v[x] = std::move(v[x].GetArray()[e]);
          const Tree c = t[x].a[e];
          t[x] = c;
        } else if (t[x].t == Type::kObject) {
          if (e >= t[x].a.size()) vf_stop();
          auto it = v[x].GetObject().begin();
          for (uint64_t k = 0; k < e; k++) ++it;
          v[x] = std::move(it->second);
          const Tree c = t[x].a[e];
          t[x] = c;
        } else {
          vf_stop();
        }
      } else if (op == 3) {          // into its own element, of the other
        if (!known[x] || !known[y]) vf_stop();
        if (t[x].t == Type::kArray) { v[x].GetArray().push_back(std::move(v[y])); t[x].a.push_back(t[y]); }
        else if (t[x].t == Type::kObject) { v[x].SetKey("moved", std::move(v[y])); insertKey(t[x], "moved", t[y]); }
        else vf_stop();
        known[y] = false;
      } else if (op == 4) {          // from an element of the other
        if (!known[y] || (t[y].t != Type::kArray && t[y].t != Type::kObject) || t[y].a.empty()) vf_stop();
        if (t[y].t == Type::kArray) { v[x] = std::move(v[y].GetArray()[0]); v[y].GetArray().erase(v[y].GetArray().begin()); t[x] = t[y].a[0]; }
        else { v[x] = std::move(v[y].GetObject().begin()->second); v[y].GetObject().erase(v[y].GetObject().begin()); t[x] = t[y].a[0]; t[y].keys.erase(t[y].keys.begin()); }
        t[y].a.erase(t[y].a.begin());
        known[x] = true;
      } else if (op == 5) {
        if (!known[y]) vf_stop();
        v[x] = v[y].Clone();
        t[x] = t[y]; known[x] = true;
      } else if (op == 6) {          // self-assignment: memory stays valid, content is unspecified
        auto& self = v[x];
        v[x] = std::move(self);
        known[x] = false;
      } else {
        const Value w(std::move(v[x]));
        if (known[x]) vf_assert(holds(w, t[x]), "V05: holds exactly the content last assigned");
        known[x] = false;
      }
      for (int k = 0; k < 2; k++) if (known[k]) vf_assert(holds(v[k], t[k]), "V05: holds exactly the content last assigned");
    }
    vf_observe("t", known[0] ? (uint64_t)v[0].type() : 9);
  }
  vf_assert(vf_heap_live() == heap, "V05: everything is freed once");
  vf_reach("v05");
}
// assignment from any descendant, over every pair of types. params: 0 depth of the descendant
VF_ENTRY(v05_descendant) {
  const uint64_t heap = vf_heap_live();
  {
    Tree t;
    Value inner = gen(1, 1, t, true);
    const uint64_t depth = vf_param(0, 1);
    Value v = std::move(inner);
    bool arr[4];
    for (uint64_t i = 0; i < depth; i++) {
      Value o(Type::kNull);
      arr[i] = vf_flip("array");
      if (arr[i]) { o = Value(Type::kArray); o.GetArray().push_back(Value("sibling that needs the heap")); o.GetArray().push_back(std::move(v)); }
      else { o = Value(Type::kObject); o.SetKey("k", std::move(v)); o.SetKey("sibling", Value("sibling that needs the heap")); }
      v = std::move(o);
    }
    Value* d = &v;
    for (uint64_t i = depth; i-- > 0;) d = arr[i] ? &d->GetArray()[1] : &d->GetObject().find("k")->second;
    v = std::move(*d);
    vf_assert(holds(v, t), "V05: assigning a value's own descendant keeps exactly its content");
  }
  vf_assert(vf_heap_live() == heap, "V05: everything is freed once");
  vf_reach("v05");
}
