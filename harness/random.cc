// R01: the random device of a thread.
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include "rst/guid/guid.h"
#include "rst/random/random_device.h"
#include "vf.h"
extern "C" uint64_t vm_random_devices, vm_random_draws, vm_random_live, vm_random_threads;
extern "C" uint32_t vm_random_log[64];

// params: 0 threads besides the main one, 1 preemptions, 2 uses, 3 GUIDs
VF_ENTRY(r01_threads) {
  vf_config("preempt", vf_param(1, 99));
  vf_config("race", 1);
  vm_random_threads = 1;
  const uint64_t n = vf_param(0, 2), uses = vf_param(2, 2);
  const bool first = vf_flip("first"), guids = vf_param(3, 0);
  std::random_device* dev[4] = {};
  std::string text[4];
  auto work = [&](uint64_t k) {
    if (guids) { text[k] = rst::Guid().AsString(); return; }
    std::random_device* d = &rst::GetRandomDevice();
    for (uint64_t i = 0; i < uses; i++) {
      vf_yield();
      vf_assert(&rst::GetRandomDevice() == d, "R01: within a thread it is always the same device");
      (void)rst::GetRandomDevice()();
    }
    dev[k] = d;
    vf_yield();          // the thread is still alive here
  };
  if (first) work(0);
  {
    // started one after the other or together: both while earlier ones run and after they have ended
    const bool serial = vf_flip("serial");
    std::vector<std::thread> ts;
    for (uint64_t i = 0; i < n; i++) {
      ts.emplace_back(work, i + 1);
      if (serial) ts.back().join();
    }
    if (!first) work(0);
    if (!serial) for (auto& t : ts) t.join();
  }
  vm_random_threads = 0;
  if (guids) {
    for (auto& s : text) if (!s.empty()) vf_assert(s.size() == 36 && rst::Guid::IsValidOutputString(s), "R01: GUIDs can be generated concurrently");
    vf_assert(vm_random_draws >= 2 * (n + 1), "R01: every GUID draws for itself");
  } else {
    for (uint64_t i = 1; i <= n; i++) vf_assert(dev[i] != dev[0], "R01: two threads never share a device");
    vf_assert(vm_random_draws == uses * (n + 1), "R01: every use draws from the device");
    work(0);
  }
  vf_assert(vm_random_live <= 1, "R01: the device of a thread ends with it");
  vf_reach("r01");
}
// All threads alive at once, each with its own device. params: 0 threads, 1 preemptions
VF_ENTRY(r01_alive) {
  vf_config("preempt", vf_param(1, 2));
  vf_config("race", 1);
  vm_random_threads = 1;
  const uint64_t n = vf_param(0, 2);
  std::random_device* dev[4] = {};
  uint64_t in = 0;
  auto work = [&](uint64_t k) {
    dev[k] = &rst::GetRandomDevice();
    vf_count(&in, 1, 1);
    for (int i = 0; i < 3 && vf_count(&in, 0, 1) <= n; i++) vf_yield();
    if (vf_count(&in, 0, 1) <= n) return;
    for (uint64_t i = 0; i <= n; i++) if (i != k) vf_assert(dev[i] != dev[k], "R01: two threads never share a device");
    vf_reach("together");
    (void)rst::GetRandomDevice()();
  };
  std::vector<std::thread> ts;
  for (uint64_t i = 0; i < n; i++) ts.emplace_back(work, i + 1);
  work(0);
  for (auto& t : ts) t.join();
  vf_reach("r01");
}
// What the device gives is what the source gave.
VF_ENTRY(r01_values) {
  for (uint64_t i = 0; i < 4; i++) {
    const uint32_t v = rst::GetRandomDevice()();
    vf_assert(vm_random_draws == i + 1 && v == vm_random_log[i], "R01: the device passes on the source's values");
  }
  vf_assert(vm_random_live == 1, "R01: one device per thread");
  vf_reach("r01");
}
