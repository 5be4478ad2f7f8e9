// Interface between harnesses and what runs them: the symbolic engine, or the native replay runtime.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
uint64_t vf_sym(uint32_t bits, const char* name);                     // any value of that many bits
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* name);        // any value in [lo, hi]
uint64_t vf_choose(uint64_t n, const char* name);                     // 0..n-1, one path each
void vf_sym_bytes(void* p, uint64_t n, const char* name);             // n bytes of any value
void vf_assume(int cond);
void vf_assert_(int cond, const char* label);
[[noreturn]] void vf_fail(const char* label);
void vf_reach(const char* label);                                     // witness: the driver demands that it was reached
void vf_expect_trap(const char* label);                               // an abort from here on is correct (nullptr: not any more)
void vf_observe(const char* name, uint64_t v);                        // compared between engine and native run
void vf_observe_bytes(const char* name, const void* p, uint64_t n);
uint64_t vf_param(uint64_t k, uint64_t dflt);
uint64_t vf_heap_live();                                              // live heap blocks
uint64_t vf_concretize(uint64_t v);
[[noreturn]] void vf_stop();
void vf_config(const char* key, uint64_t v);                          // preempt, timeouts, spurious, afterunlock, atomics, race, latewake
uint64_t vf_count(uint64_t* p, int64_t d, int sync);                   // an atomic += that no thread switch precedes; the new value. sync: also acquires and releases
void vf_yield();
uint64_t vf_now();
void vf_set_now(uint64_t ns);
int vf_native();
int vf_trap_expected();
}
#define vf_assert(c, label) vf_assert_(!!(c), label)

#ifdef VF_NATIVE
struct VfReg { VfReg(const char* n, void (*f)()); };
#define VF_ENTRY(name) extern "C" void name(); static VfReg vfreg_##name(#name, name); extern "C" void name()
#else
#define VF_ENTRY(name) extern "C" void name()
#endif

inline bool vf_bool(const char* name) { return vf_range(0, 1, name) != 0; }
inline bool vf_flip(const char* name) { return vf_choose(2, name) != 0; }
