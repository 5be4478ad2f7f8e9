// std::random_device: any 32-bit values at all. A device may only be used while it exists, and by one thread at a time.
#include <random>
#include <string>
#include "vf.h"
extern "C" {
extern uint64_t vm_random_devices, vm_random_draws, vm_random_live, vm_random_threads;
uint64_t vm_random_devices = 0, vm_random_draws = 0, vm_random_live = 0;
uint64_t vm_random_threads = 0;         // 1: used by several threads
extern uint32_t vm_random_log[64];
uint32_t vm_random_log[64];
static void* g_live[16];
struct Quiet { Quiet() { if (vm_random_threads) vf_config("race", 0); } ~Quiet() { if (vm_random_threads) vf_config("race", 1); } };
static void** slot(void* d) { for (auto& p : g_live) if (p == d) return &p; return nullptr; }
void vm__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(std::random_device* d, const std::string&) {
  *(volatile char*)d = 1;               // takes part in race detection
  Quiet q;
  vm_random_devices++;
  vm_random_live++;
  if (void** p = slot(nullptr)) *p = d; else vf_fail("model: too many random devices");
}
void vm__ZNSt13random_device7_M_finiEv(std::random_device* d) {
  *(volatile char*)d = 0;
  Quiet q;
  if (void** p = slot(d)) *p = nullptr; else vf_fail("a random device is destroyed twice");
  vm_random_live--;
}
unsigned vm__ZNSt13random_device9_M_getvalEv(std::random_device* d) {
  *(volatile char*)d = 2;
  Quiet q;
  if (!slot(d)) vf_fail("a random device is used that does not exist");
  unsigned v = (unsigned)vf_sym(32, "random");
  if (vm_random_draws < 64) vm_random_log[vm_random_draws] = v;
  vm_random_draws++;
  return v;
}
}
