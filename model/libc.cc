// libc functions beyond the engine's built-in ones, for the symbolic engine only: code that is rewritten to use them must
// still be checkable. Built with -fno-builtin so that no loop turns into a call of the function it defines.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <pthread.h>
#include <wchar.h>
#include "vf.h"

extern "C" {
void* malloc(size_t);
void* memcpy(void*, const void*, size_t);
size_t strlen(const char*);
size_t strnlen(const char*, size_t);

char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* stpncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; char* r = d + i; for (; i < n; i++) d[i] = 0; return r; }
char* strcat(char* d, const char* s) { stpcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return static_cast<char*>(d) + n; }
void* memccpy(void* d, const void* s, int c, size_t n) {
  for (size_t i = 0; i < n; i++) if ((static_cast<unsigned char*>(d)[i] = static_cast<const unsigned char*>(s)[i]) == static_cast<unsigned char>(c)) return static_cast<char*>(d) + i + 1;
  return nullptr;
}
char* strchrnul(const char* s, int c) { while (*s && *s != static_cast<char>(c)) s++; return const_cast<char*>(s); }
void* rawmemchr(const void* p, int c) { auto s = static_cast<const unsigned char*>(p); while (*s != static_cast<unsigned char>(c)) s++; return const_cast<unsigned char*>(s); }
size_t strspn(const char* s, const char* set) {
  size_t n = 0;
  for (; s[n]; n++) { const char* p = set; while (*p && *p != s[n]) p++; if (!*p) break; }
  return n;
}
size_t strcspn(const char* s, const char* set) {
  size_t n = 0;
  for (; s[n]; n++) { const char* p = set; while (*p && *p != s[n]) p++; if (*p) break; }
  return n;
}
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? const_cast<char*>(s) : nullptr; }
char* strstr(const char* h, const char* n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return const_cast<char*>(h);
    if (!*h) return nullptr;
  }
}
void* memmem(const void* h, size_t hn, const void* n, size_t nn) {
  auto a = static_cast<const char*>(h), b = static_cast<const char*>(n);
  for (size_t k = 0; k + nn <= hn; k++) { size_t i = 0; while (i < nn && a[k + i] == b[i]) i++; if (i == nn) return const_cast<char*>(a + k); }
  return nullptr;
}
char* strndup(const char* s, size_t n) { n = strnlen(s, n); char* p = static_cast<char*>(malloc(n + 1)); memcpy(p, s, n); p[n] = 0; return p; }
char* strdup(const char* s) { return strndup(s, strlen(s)); }

// ctype, "C" locale
static inline bool in(int c, int lo, int hi) { return c >= lo && c <= hi; }
int isdigit(int c) { return in(c, '0', '9'); }
int isupper(int c) { return in(c, 'A', 'Z'); }
int islower(int c) { return in(c, 'a', 'z'); }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || in(c, 'a', 'f') || in(c, 'A', 'F'); }
int isspace(int c) { return c == ' ' || in(c, 9, 13); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return in(c, 0, 31) || c == 127; }
int isprint(int c) { return in(c, 32, 126); }
int isgraph(int c) { return in(c, 33, 126); }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static unsigned short g_ctype[384];
static int32_t g_lower[384], g_upper[384];
static const unsigned short* g_ctypeP = g_ctype + 128;
static const int32_t *g_lowerP = g_lower + 128, *g_upperP = g_upper + 128;
static bool g_tables;
static void tables() {
  if (g_tables) return;
  g_tables = true;
  for (int c = -128; c < 256; c++) {
    g_lower[c + 128] = tolower(c);
    g_upper[c + 128] = toupper(c);
    auto bit = [](int b) { return static_cast<unsigned short>(b < 8 ? (1 << b) << 8 : (1 << b) >> 8); };
    unsigned short m = 0;
    if (isupper(c)) m |= bit(0);
    if (islower(c)) m |= bit(1);
    if (isalpha(c)) m |= bit(2);
    if (isdigit(c)) m |= bit(3);
    if (isxdigit(c)) m |= bit(4);
    if (isspace(c)) m |= bit(5);
    if (isprint(c)) m |= bit(6);
    if (isgraph(c)) m |= bit(7);
    if (isblank(c)) m |= bit(8);
    if (iscntrl(c)) m |= bit(9);
    if (ispunct(c)) m |= bit(10);
    if (isalnum(c)) m |= bit(11);
    g_ctype[c + 128] = m;
  }
}
const unsigned short** __ctype_b_loc() { tables(); return &g_ctypeP; }
const int32_t** __ctype_tolower_loc() { tables(); return &g_lowerP; }
const int32_t** __ctype_toupper_loc() { tables(); return &g_upperP; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower(static_cast<unsigned char>(*a)), y = tolower(static_cast<unsigned char>(*b)); if (x != y || !x) return x - y; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = tolower(static_cast<unsigned char>(*a)), y = tolower(static_cast<unsigned char>(*b)); if (x != y || !x) return x - y; } return 0; }

int* vm___errno_location();
static unsigned long long toNumber(const char* s, char** end, int base, bool* neg, bool* over) {
  const char* p = s;
  while (isspace(static_cast<unsigned char>(*p))) p++;
  *neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(static_cast<unsigned char>(p[2]))) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0;
  bool any = false;
  *over = false;
  for (;; p++) {
    const int c = static_cast<unsigned char>(*p);
    const int d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    unsigned long long w;
    if (__builtin_mul_overflow(v, static_cast<unsigned long long>(base), &w) || __builtin_add_overflow(w, static_cast<unsigned long long>(d), &v)) { *over = true; v = ~0ull; }
  }
  if (end) *end = const_cast<char*>(any ? p : s);
  return any ? v : 0;
}
long long strtoll(const char* s, char** end, int base) {
  bool neg, over;
  const unsigned long long v = toNumber(s, end, base, &neg, &over), lim = 0x7fffffffffffffffull + neg;
  if (over || v > lim) { *vm___errno_location() = ERANGE; return static_cast<long long>(neg ? 0x8000000000000000ull : 0x7fffffffffffffffull); }
  return static_cast<long long>(neg ? 0 - v : v);
}
unsigned long long strtoull(const char* s, char** end, int base) {
  bool neg, over;
  const unsigned long long v = toNumber(s, end, base, &neg, &over);
  if (over) { *vm___errno_location() = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
long strtol(const char* s, char** end, int base) { return strtoll(s, end, base); }
unsigned long strtoul(const char* s, char** end, int base) { return strtoull(s, end, base); }
long __isoc23_strtol(const char* s, char** end, int base) { return strtoll(s, end, base); }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) { return strtoull(s, end, base); }
long long __isoc23_strtoll(const char* s, char** end, int base) { return strtoll(s, end, base); }
unsigned long long __isoc23_strtoull(const char* s, char** end, int base) { return strtoull(s, end, base); }
int atoi(const char* s) { return static_cast<int>(strtoll(s, nullptr, 10)); }
long atol(const char* s) { return strtoll(s, nullptr, 10); }
long long atoll(const char* s) { return strtoll(s, nullptr, 10); }

// numbers
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
double modf(double v, double* ip) { const double t = __builtin_trunc(v); *ip = t; return __builtin_copysign(__builtin_isinf(v) ? 0.0 : v - t, v); }
long lround(double v) { return static_cast<long>(__builtin_round(v)); }
long long llround(double v) { return static_cast<long long>(__builtin_round(v)); }
long lrint(double v) { return static_cast<long>(__builtin_rint(v)); }
long long llrint(double v) { return static_cast<long long>(__builtin_rint(v)); }

// Recursive mutexes carry their kind in the attribute; the engine reads it from the mutex.
int pthread_mutexattr_init(pthread_mutexattr_t* a) { *reinterpret_cast<int*>(a) = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int kind) { *reinterpret_cast<int*>(a) = kind; return 0; }
}

// std::call_once
namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
int uncaught_exceptions() noexcept { return 0; }
bool uncaught_exception() noexcept { return false; }
}
