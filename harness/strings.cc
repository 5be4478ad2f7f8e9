// S01, S02, S03: StrCat, Format and the text of arguments.
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
#include "vf.h"

template <class A> A ArgTypeOf(std::string (*)(std::initializer_list<A>));
using Arg = decltype(ArgTypeOf(&rst::StrCat));

namespace {
// A piece of text of a chosen kind; the bytes sit in a block of exactly their size.
struct Piece {
  int kind = 0;
  char* raw = nullptr;
  size_t n = 0;
  std::string str;
  void init(size_t kinds, size_t maxLen) {
    kind = (int)vf_choose(kinds, "kind");
    if (kind == 3) { n = 1; raw = new char[1]; vf_sym_bytes(raw, 1, "char"); return; }
    if (kind == 4) { const bool b = vf_flip("bool"); const char* t = b ? "true" : "false"; n = strlen(t); raw = new char[n]; memcpy(raw, t, n); return; }
    n = (size_t)vf_choose(maxLen + 1, "len");
    raw = new char[n + 1];
    vf_sym_bytes(raw, n, "piece");
    raw[n] = 0;
    if (kind == 1) str.assign(raw, n);
    if (kind == 2) for (size_t i = 0; i < n; i++) vf_assume(raw[i] != 0);
  }
  ~Piece() { delete[] raw; }
};
Arg make(const Piece& p) {
  switch (p.kind) {
    case 0: return Arg(std::string_view(p.n ? p.raw : nullptr, p.n));
    case 1: return Arg(p.str);
    case 2: return Arg((const char*)p.raw);
    case 3: return Arg(p.raw[0]);
    default: return Arg(p.n == 4);
  }
}
bool sameBytes(const std::string& s, size_t at, const char* p, size_t n) {
  bool ok = s.size() >= at + n;
  if (ok) for (size_t i = 0; i < n; i++) ok &= s[at + i] == p[i];
  return ok;
}
}  // namespace

// S01. params: 0 number of pieces, 1 longest piece, 2 number of piece kinds
VF_ENTRY(s01_concat) {
  const uint64_t k = vf_param(0, 2), ml = vf_param(1, 2), kinds = vf_param(2, 5);
  const uint64_t heap = vf_heap_live();
  {
    Piece p[4];
    for (uint64_t i = 0; i < k; i++) p[i].init(kinds, ml);
    std::string s;
    switch (k) {
      case 0: s = rst::StrCat({}); break;
      case 1: s = rst::StrCat({make(p[0])}); break;
      case 2: s = rst::StrCat({make(p[0]), make(p[1])}); break;
      case 3: s = rst::StrCat({make(p[0]), make(p[1]), make(p[2])}); break;
      default: s = rst::StrCat({make(p[0]), make(p[1]), make(p[2]), make(p[3])}); break;
    }
    size_t total = 0;
    bool ok = true;
    for (uint64_t i = 0; i < k; i++) { ok &= sameBytes(s, total, p[i].raw, p[i].n); total += p[i].n; }
    vf_assert(s.size() == total, "S01: length is the sum of the piece lengths");
    vf_assert(ok, "S01: the bytes are the pieces' bytes in order");
    vf_assert(s.c_str()[total] == 0, "S01: the result is terminated");
    vf_observe_bytes("s", s.data(), s.size());
    if (total > 15) vf_reach("s01_long");
  }
  vf_assert(vf_heap_live() == heap, "S01: nothing is leaked");
  vf_reach("s01");
}
// S01: pieces around the sizes at which std::string changes its storage. params: 0 total length, split anywhere
VF_ENTRY(s01_split) {
  const uint64_t n = vf_param(0, 16);
  char* buf = new char[n + 1];
  vf_sym_bytes(buf, n, "byte");
  const uint64_t cut = vf_choose(n + 1, "cut");
  const std::string_view a(buf, cut), b(buf + cut, n - cut);
  const std::string s = rst::StrCat({a, b});
  vf_assert(s.size() == n, "S01: length is the sum of the piece lengths");
  vf_assert(sameBytes(s, 0, buf, n), "S01: the bytes are the pieces' bytes in order");
  vf_observe_bytes("s", s.data(), s.size());
  delete[] buf;
  vf_reach("s01_split");
}
// S01: eight pieces. params: 0 the longest of the three lengths a piece may have
VF_ENTRY(s01_many) {
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t big = vf_param(0, 1);
    char* raw[8];
    size_t len[8], total = 0;
    for (uint64_t i = 0; i < 8; i++) {
      const uint64_t k = vf_choose(big > 1 && i % 3 == 1 ? 3 : 2, "len");
      len[i] = k == 2 ? big : k;
      raw[i] = new char[len[i]];
      if (len[i] > 2) memset(raw[i], (int)('a' + i), len[i]);
      if (len[i]) vf_sym_bytes(raw[i], 1, "first");
      if (len[i] > 1) vf_sym_bytes(raw[i] + len[i] - 1, 1, "last");
      total += len[i];
    }
    auto v = [&](int i) { return std::string_view(raw[i], len[i]); };
    const std::string s = rst::StrCat({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7)});
    vf_assert(s.size() == total, "S01: length is the sum of the piece lengths");
    bool ok = s.size() == total;
    size_t at = 0;
    for (uint64_t i = 0; ok && i < 8; i++) {
      if (len[i]) ok &= (s[at] == raw[i][0]) & (s[at + len[i] - 1] == raw[i][len[i] - 1]);
      if (len[i] > 2) ok &= memcmp(s.data() + at + 1, raw[i] + 1, len[i] - 2) == 0;
      at += len[i];
    }
    vf_assert(ok, "S01: the bytes are the pieces' bytes in order");
    vf_observe("total", total);
    for (uint64_t i = 0; i < 8; i++) delete[] raw[i];
  }
  vf_assert(vf_heap_live() == heap, "S01: nothing is leaked");
  vf_reach("s01");
}
// S02: formats put together from parts with long literals, up to six arguments. params: 0 parts, 1 length of the long texts
template <size_t L> static void partsEntry() {
  const uint64_t parts = vf_param(0, 6), big = vf_param(1, 40);
  char* fmtBlock = new char[L + 1];
  char(&fmt)[L + 1] = *(char(*)[L + 1]) fmtBlock;
  std::string want;
  std::string args[6];
  size_t n = 0, used = 0;
  for (uint64_t i = 0; i < parts; i++) {
    const uint64_t kind = vf_choose(n + big + 2 * (parts - i) <= L ? 5 : 4, "part");
    if (kind == 0) { fmt[n++] = '{'; fmt[n++] = '{'; want += '{'; }
    else if (kind == 1) { fmt[n++] = '}'; fmt[n++] = '}'; want += '}'; }
    else if (kind == 2 || kind == 3) {
      fmt[n++] = '{'; fmt[n++] = '}';
      args[used] = kind == 2 ? std::string(1, (char)('0' + i)) : std::string(big, (char)('A' + i));
      want += args[used++];
    } else { memset(fmt + n, (int)('a' + i), big); n += big; want.append(big, (char)('a' + i)); }
  }
  memset(fmt + n, ' ', L - n);
  want.append(L - n, ' ');
  fmt[L] = 0;
  const char(&f)[L + 1] = fmt;
  const std::string* a = args;
  std::string s;
  switch (used) {
    case 0: s = rst::Format(f); break;
    case 1: s = rst::Format(f, {a[0]}); break;
    case 2: s = rst::Format(f, {a[0], a[1]}); break;
    case 3: s = rst::Format(f, {a[0], a[1], a[2]}); break;
    case 4: s = rst::Format(f, {a[0], a[1], a[2], a[3]}); break;
    case 5: s = rst::Format(f, {a[0], a[1], a[2], a[3], a[4]}); break;
    default: s = rst::Format(f, {a[0], a[1], a[2], a[3], a[4], a[5]}); break;
  }
  vf_assert(s == want, "S02: the result is the format text with every placeholder replaced");
  vf_observe_bytes("s", s.data(), s.size());
  delete[] fmtBlock;
  vf_reach("s02_parts");
}
VF_ENTRY(s02_parts) {
  if (vf_param(1, 40) == 40) partsEntry<100>(); else partsEntry<700>();
}

// S02. params: 0 format length, 1 number of arguments, 2 longest argument
template <size_t L> static void formatEntry() {
  const uint64_t nargs = vf_param(1, 1), ml = vf_param(2, 1);
  char* fmtBlock = new char[L + 1];
  char(&fmt)[L + 1] = *(char(*)[L + 1]) fmtBlock;
  vf_sym_bytes(fmt, L, "fmt");
  fmt[L] = 0;
  Piece p[4];
  for (uint64_t i = 0; i < nargs; i++) p[i].init(1, ml);
  // reference: scan once, left to right
  char want[64];
  size_t n = 0, arg = 0;
  bool ok = true;
  for (size_t i = 0; i < L && ok; i++) {
    const char c = fmt[i];
    if (c == 0) { ok = false; break; }
    if (c == '{') {
      if (i + 1 < L && fmt[i + 1] == '}') {
        if (arg >= nargs) ok = false;
        else { for (size_t j = 0; j < p[arg].n; j++) want[n++] = p[arg].raw[j]; arg++; i++; }
      } else if (i + 1 < L && fmt[i + 1] == '{') { want[n++] = '{'; i++; }
      else ok = false;
    } else if (c == '}') {
      if (i + 1 < L && fmt[i + 1] == '}') { want[n++] = '}'; i++; }
      else ok = false;
    } else want[n++] = c;
  }
  if (arg != nargs) ok = false;
  if (!ok) { vf_reach("s02_malformed"); vf_expect_trap("S02: malformed use aborts"); }
  else vf_reach("s02_wellformed");
  std::string s;
  const char(&f)[L + 1] = fmt;
  switch (nargs) {
    case 0: s = rst::Format(f); break;
    case 1: s = rst::Format(f, {make(p[0])}); break;
    case 2: s = rst::Format(f, {make(p[0]), make(p[1])}); break;
    default: s = rst::Format(f, {make(p[0]), make(p[1]), make(p[2])}); break;
  }
  if (!ok) vf_fail("S02: a malformed use returns");
  vf_assert(s.size() == n, "S02: length of the result");
  vf_assert(sameBytes(s, 0, want, n), "S02: the result is the format text with every placeholder replaced");
  vf_observe_bytes("s", s.data(), s.size());
  delete[] fmtBlock;
}
VF_ENTRY(s02_format) {
  switch (vf_param(0, 2)) {
    case 0: formatEntry<0>(); break;
    case 1: formatEntry<1>(); break;
    case 2: formatEntry<2>(); break;
    case 3: formatEntry<3>(); break;
    case 4: formatEntry<4>(); break;
    case 5: formatEntry<5>(); break;
    case 6: formatEntry<6>(); break;
    case 7: formatEntry<7>(); break;
    case 8: formatEntry<8>(); break;
    default: vf_fail("bad parameter");
  }
}
// S02: long output: one long argument or long literal text, sizes around the string's storage change.
VF_ENTRY(s02_long) {
  const uint64_t n = vf_param(0, 30);
  char* buf = new char[n + 1];
  vf_sym_bytes(buf, n, "arg");
  const std::string s = rst::Format("<{}|{{{}}}>", {std::string_view(buf, n), 'x'});
  vf_assert(s.size() == n + 6, "S02: length of the result");
  bool ok = s.size() == n + 6 && s[0] == '<';
  if (ok) for (size_t i = 0; i < n; i++) ok &= s[1 + i] == buf[i];
  ok = ok && s.compare(n + 1, 5, "|{x}>") == 0;
  vf_assert(ok, "S02: the result is the format text with every placeholder replaced");
  vf_observe_bytes("s", s.data(), s.size());
  delete[] buf;
  vf_reach("s02_long");
}
// S02: more arguments than a long format text has placeholders for, and the other way round.
VF_ENTRY(s02_toomany) {
  const uint64_t which = vf_choose(3, "which");
  vf_reach("s02_toomany");
  vf_expect_trap("S02: malformed use aborts");
  const std::string_view e;
  std::string s;
  if (which == 0) s = rst::Format("0123456789012345678901234567890123456789", {e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e});
  else if (which == 1) s = rst::Format("abcdefghijklmnopqrstuvwxyz{}", {e, e, e, e, e, e, e, e, e, e, e, e, e, e});
  else s = rst::Format("{}{}{}{}", {"a", "b", "c"});
  vf_fail("S02: a malformed use returns");
}

// ---------------------------------------------------------------- S03
// The value a decimal text denotes, checked to be the shortest decimal text.
template <class I> static void checkInt(const std::string& s, I v) {
  using U = std::make_unsigned_t<I>;
  vf_observe_bytes("s", s.data(), s.size());
  const bool neg = v < 0;
  const U mag = neg ? (U)0 - (U)v : (U)v;
  const size_t d = neg ? 1 : 0;
  vf_assert(s.size() > d && s.size() <= 20, "S03: length of a decimal text");
  bool digits = true;
  U x = 0;
  bool over = false;
  for (size_t i = d; i < s.size(); i++) {
    const unsigned c = (unsigned char)s[i] - '0';
    digits &= c <= 9;
    x = (U)(x * 10 + c);
  }
  vf_assert(digits, "S03: only digits after the sign");
  if (neg) vf_assert(s[0] == '-', "S03: a negative number starts with '-'");
  vf_assert((s.size() == d + 1) | (s[d] != '0'), "S03: no leading zero");
  vf_assert(!neg | (s[d] != '0'), "S03: no negative zero");
  // the text has the right number of digits, so the arithmetic above did not wrap
  size_t want = 1;
  for (U lim = 10; mag >= lim; lim = (U)(lim * 10)) { want++; if (lim > (U)-1 / 10) break; }
  vf_assert(s.size() == d + want, "S03: number of digits");
  vf_assert(x == mag, "S03: the text denotes the number");
  (void)over;
  vf_reach("s03_int");
}
// a number within `span` of one of the places where the number of digits or the type changes
template <class I> static I window(uint64_t span) {
  using U = std::make_unsigned_t<I>;
  U c = 0;
  const uint64_t pts = sizeof(I) == 2 ? 6 : sizeof(I) == 4 ? 11 : 21;
  uint64_t p = vf_choose(pts + 2, "point");
  if (p < pts) { for (c = 1; p > 1; p--) c = (U)(c * 10); if (p == 0) c = 0; }
  else if (p == pts) c = (U)((U)1 << (sizeof(I) * 8 - 1));
  else c = (U)-1;
  U v = (U)(c + (U)(vf_range(0, 2 * span, "offset") - span));
  if (vf_flip("negate")) v = (U)(0 - v);
  return (I)v;
}
// params: 0 type, 1 span around each point (0: all values)
template <class I> static void intEntry() {
  const uint64_t span = vf_param(1, 0);
  const I v = span ? window<I>(span) : (I)vf_sym(sizeof(I) * 8, "number");
  if (vf_param(2, 0)) checkInt<I>(rst::Format("{}", {v}), v);
  else checkInt<I>(rst::StrCat({v}), v);
}
VF_ENTRY(s03_int) {
  switch (vf_param(0, 0)) {
    case 0: intEntry<short>(); break;
    case 1: intEntry<unsigned short>(); break;
    case 2: intEntry<int>(); break;
    case 3: intEntry<unsigned>(); break;
    case 4: intEntry<long>(); break;
    case 5: intEntry<unsigned long>(); break;
    case 6: intEntry<long long>(); break;
    case 7: intEntry<unsigned long long>(); break;
    default: vf_fail("bad parameter");
  }
}
enum class EI8 : signed char {};
enum class EU8 : unsigned char {};
enum class EI16 : short {};
enum class EU32 : unsigned {};
enum class EI64 : long long {};
enum class EU64 : unsigned long long {};
enum Plain { kPlainA = -3, kPlainB = 70000 };
template <class T> static void enumOne(uint64_t span) {
  using I = std::underlying_type_t<T>;
  I v;
  if constexpr (sizeof(I) >= 4) v = window<I>(span);
  else v = (I)vf_sym(sizeof(I) * 8, "number");
  checkInt<std::conditional_t<sizeof(I) == 1, int, I>>(rst::StrCat({static_cast<T>(v)}), v);
}
VF_ENTRY(s03_enum) {
  const uint64_t span = vf_param(1, 50);
  switch (vf_param(0, 0)) {
    case 0: enumOne<EI8>(span); break;
    case 1: enumOne<EU8>(span); break;
    case 2: enumOne<EI16>(span); break;
    case 3: enumOne<EU32>(span); break;
    case 4: enumOne<EI64>(span); break;
    case 5: enumOne<EU64>(span); break;
    default: {
      const bool b = vf_flip("which");
      const std::string s = rst::StrCat({b ? kPlainB : kPlainA});
      vf_assert(s == (b ? "70000" : "-3"), "S03: plain enumerators render as their number");
      vf_reach("s03_int");
    }
  }
}
VF_ENTRY(s03_other) {
  switch (vf_choose(4, "kind")) {
    case 0: {
      const bool b = vf_flip("b");
      vf_assert(rst::StrCat({b}) == (b ? "true" : "false"), "S03: booleans render as true and false");
      vf_assert(rst::Format("{}", {!b}) == (b ? "false" : "true"), "S03: booleans render as true and false");
      break;
    }
    case 1: {
      const char c = (char)vf_sym(8, "c");
      const std::string s = rst::StrCat({c});
      vf_assert(s.size() == 1 && s[0] == c, "S03: a char renders as that byte");
      break;
    }
    case 2: {
      const unsigned char b = (unsigned char)vf_sym(8, "b");
      const std::string s = rst::StrCat({static_cast<signed char>(b)});
      checkInt<int>(s, (signed char)b);
      break;
    }
    default: {
      const unsigned char b = (unsigned char)vf_sym(8, "b");
      checkInt<int>(rst::StrCat({b}), b);
      break;
    }
  }
  vf_reach("s03_other");
}
// several numbers of different types in one call, texts of their own
VF_ENTRY(s03_several) {
  const int a = (int)vf_range(0, 2, "a") - 10;
  const unsigned long long b = vf_flip("b") ? ~0ull : 7;
  const bool c = vf_flip("c");
  const short d = vf_flip("d") ? -32768 : 99;
  const double e = vf_flip("e") ? 1.5e300 : 0.25;
  const std::string one[] = {rst::StrCat({a}), rst::StrCat({b}), rst::StrCat({c}), rst::StrCat({d}), rst::StrCat({e}), rst::StrCat({-e})};
  std::string want;
  for (const auto& o : one) { want += o; want += '|'; }
  const std::string s = vf_flip("format") ? rst::Format("{}|{}|{}|{}|{}|{}|", {a, b, c, d, e, -e}) : rst::StrCat({a, '|', b, '|', c, '|', d, '|', e, '|', -e, '|'});
  vf_assert(s == want, "S03: numbers in one call render as each of them alone");
  vf_reach("s03_several");
}
VF_ENTRY(s03_float) {
  char want[64];
  int n = 0;
  std::string s;
  switch (vf_param(0, 0)) {
    case 0: {
      uint64_t b = vf_sym(64, "double");
      double d;
      memcpy(&d, &b, 8);
      n = snprintf(want, sizeof want, "%g", d);
      s = rst::StrCat({"<", d, ">"});
      break;
    }
    case 1: {
      uint32_t b = (uint32_t)vf_sym(32, "float");
      float d;
      memcpy(&d, &b, 4);
      n = snprintf(want, sizeof want, "%g", (double)d);
      s = rst::StrCat({"<", d, ">"});
      break;
    }
    default: {
      uint64_t b = vf_sym(64, "double");
      double d;
      memcpy(&d, &b, 8);
      if (vf_choose(2, "values") == 0) vf_assume((b >> 52) == 0x3ff && (b & 0xfffffffffull) == 0 && b != 0x3ff0000000000000ull);   // a replay prints something
      memcpy(&d, &b, 8);
      const long double l = d;
      n = snprintf(want, sizeof want, "%Lg", l);
      s = rst::Format("<{}>", {l});
    }
  }
  bool ok = s.size() == (size_t)n + 2 && s[0] == '<' && s[n + 1] == '>';
  if (ok) for (int i = 0; i < n; i++) ok &= s[i + 1] == want[i];
  vf_assert(ok, "S03: a floating-point number renders as %g of it");
  vf_reach("s03_float");
}
