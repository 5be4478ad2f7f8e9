// G01, G02: GUID generation and validation.
#include <string>
#include <string_view>
#include "rst/guid/guid.h"
#include "vf.h"

extern "C" uint64_t vm_random_draws;
extern "C" uint32_t vm_random_log[64];

static bool lowHex(unsigned char c) { return (c >= '0') & (c <= '9') | (c >= 'a') & (c <= 'f'); }
static bool upHex(unsigned char c) { return (c >= 'A') & (c <= 'F'); }
static bool dashAt(size_t i) { return i == 8 || i == 13 || i == 18 || i == 23; }

static void checkShape(std::string_view t) {
  vf_assert(t.size() == 36, "G01: text has 36 characters");
  bool ok = true, dashes = true;
  for (size_t i = 0; i < 36; i++) {
    unsigned char c = (unsigned char)t[i];
    if (dashAt(i)) dashes &= c == '-';
    else ok &= lowHex(c);
  }
  vf_assert(dashes, "G01: dashes in the right places");
  vf_assert(ok, "G01: lower-case hexadecimal digits everywhere else");
  vf_assert(t[14] == '4', "G01: version digit is 4");
  vf_assert((t[19] == '8') | (t[19] == '9') | (t[19] == 'a') | (t[19] == 'b'), "G01: variant digit is one of 8 9 a b");
}

VF_ENTRY(g01_form) {
  const rst::Guid guid;
  const std::string text = guid.AsString();
  checkShape(text);
  const auto view = guid.AsStringView();
  vf_assert(view.value() == text, "G01: both text forms agree");
  vf_assert(guid.AsString() == text, "G01: the text of a GUID does not change");
  vf_assert(rst::Guid::IsValid(text), "G01: generated GUID passes IsValid");
  vf_assert(rst::Guid::IsValidOutputString(text), "G01: generated GUID passes IsValidOutputString");
  vf_observe_bytes("text", text.data(), text.size());
  const rst::Guid copy = guid;
  vf_assert(copy.AsString() == text, "G01: a copied GUID has the same text");
  vf_reach("g01_form");
}

// Two GUIDs made from different random words are equal only if the words agree on the 122 bits a version 4 GUID keeps.
VF_ENTRY(g01_entropy) {
  const rst::Guid a;
  const uint64_t n = vm_random_draws;
  vf_assert(n * 32 >= 122 && n <= 16, "G01: enough random bits are drawn");
  const rst::Guid b;
  vf_assert(vm_random_draws == 2 * n, "G01: every GUID draws its own random bits");
  const std::string ta = a.AsString(), tb = b.AsString();
  bool same = true;
  for (size_t i = 0; i < 36 && i < ta.size() && i < tb.size(); i++) same &= ta[i] == tb[i];
  uint64_t diff = 0;
  for (uint64_t i = 0; i < n; i++) {
    uint32_t x = vm_random_log[i] ^ vm_random_log[n + i];
    for (int k = 0; k < 32; k++) diff += (x >> k) & 1;
  }
  vf_assert(!same | (diff <= n * 32 - 122), "G01: no random bit is lost");
  vf_reach("g01_entropy");
}

VF_ENTRY(g02_shape) {
  const size_t n = vf_param(0, 36);
  char* buf = new char[n ? n : 1];  // exactly n bytes: any read beyond is out of bounds
  vf_sym_bytes(buf, n, "char");
  bool shape = n == 36, lower = shape;
  if (n == 36)
    for (size_t i = 0; i < 36; i++) {
      unsigned char c = (unsigned char)buf[i];
      if (dashAt(i)) { shape &= c == '-'; lower &= c == '-'; }
      else { shape &= lowHex(c) | upHex(c); lower &= lowHex(c); }
    }
  const std::string_view s(n ? buf : nullptr, n);
  const bool which = vf_flip("which");
  if (!which) {
    const bool v = rst::Guid::IsValid(s);
    vf_assert(v == shape, "G02: IsValid accepts exactly the documented shape");
    if (v) vf_reach("g02_valid"); else vf_reach("g02_invalid");
    vf_observe("v", v);
  } else {
    const bool v = rst::Guid::IsValidOutputString(s);
    vf_assert(v == lower, "G02: IsValidOutputString accepts exactly the lower-case shape");
    if (v) vf_reach("g02_out_valid"); else vf_reach("g02_out_invalid");
    vf_observe("v", v);
  }
  delete[] buf;
}
