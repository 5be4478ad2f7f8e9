// F01-F03: files, on a file system in which every call may fail and every instant is observed.
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include "../model/fs.h"
#include "rst/files/file_utils.h"
#include "rst/random/random_device.h"
#include "rst/rtti/rtti.h"
extern "C" uint64_t vm_random_threads;
#include "vf.h"

namespace {
constexpr const char* kDest = "d/f";
constexpr const char* kOther = "d/f.tmp";
struct Bytes { char b[FS_CAP]; uint64_t n = 0; };
Bytes g_old, g_new[2];
bool g_hadOld;
uint64_t g_writers = 1;
void symbolic(Bytes* x, uint64_t n, const char* name) { x->n = n; vf_sym_bytes(x->b, n, name); }
// content of a file equals x, as one truth value
bool holds(const char* name, const Bytes& x) {
  if (fs_size(name) != x.n) return false;
  const unsigned char* d = fs_data(name);
  unsigned diff = 0;
  for (uint64_t i = 0; i < x.n; i++) diff |= d[i] ^ (unsigned char)x.b[i];
  return diff == 0;
}
bool same(std::string_view s, const Bytes& x) {
  if (s.size() != x.n) return false;
  unsigned diff = 0;
  for (uint64_t i = 0; i < x.n; i++) diff |= (unsigned char)s[i] ^ (unsigned char)x.b[i];
  return diff == 0;
}
bool isOld() { return g_hadOld ? holds(kDest, g_old) : !fs_exists(kDest); }
void setup(uint64_t maxOld, uint64_t n) {
  (void)rst::GetRandomDevice();     // the first use in a thread may allocate
  const uint64_t k = vf_choose(maxOld + 2, "old");
  g_hadOld = k > 0;
  if (k) { symbolic(&g_old, k - 1, "old"); fs_put(kDest, g_old.b, g_old.n); }
  symbolic(&g_new[0], n, "new");
  fs_put(kOther, "other", 5);
}
bool otherIntact() { return fs_size(kOther) == 5 && memcmp(fs_data(kOther), "other", 5) == 0; }
bool contains(const std::string& s, const char* part) { return s.find(part) != std::string::npos; }
}  // namespace

// What was written is what is there and what is read. params: 0 bytes, 1 bytes of the earlier file at most, 2 important
VF_ENTRY(f01_write) {
  const uint64_t n = vf_choose(vf_param(0, 4) + 1, "n");
  setup(vf_param(1, 3), n);
  fs_lazy = 2;
  const uint64_t heap = vf_heap_live();
  {
    const std::string_view data(g_new[0].b, n);
    auto st = vf_param(2, 0) ? rst::WriteImportantFile(kDest, data) : rst::WriteFile(kDest, data);
    vf_assert(!st.err(), "F01: writing succeeds when nothing fails");
    vf_assert(holds(kDest, g_new[0]), "F01: the file holds exactly the given bytes");
    fs_sizes = 1;
    auto r = rst::ReadFile(kDest);
    vf_assert(!r.err(), "F01: reading succeeds when nothing fails");
    vf_assert(same(*r, g_new[0]), "F01: what was written is read back byte for byte");
    vf_assert(r->c_str()[r->size()] == '\0', "F01: the result is a proper string");
  }
  vf_assert(fs_streams() == 0, "F01: every stream is closed");
  vf_assert(fs_files() == 2 && otherIntact(), "F01: no other file is touched");
  vf_assert(vf_heap_live() == heap + (g_hadOld ? 0 : 1), "F01: nothing is leaked");     // the model's own inode
  vf_reach("f01");
}
// params: 0 bytes
VF_ENTRY(f01_read) {
  const uint64_t n = vf_choose(vf_param(0, 6) + 1, "n");
  symbolic(&g_new[0], n, "content");
  fs_put(kDest, g_new[0].b, n);
  fs_sizes = 1;
  const uint64_t heap = vf_heap_live();
  {
    auto r = rst::ReadFile(kDest);
    vf_assert(!r.err(), "F01: reading succeeds when nothing fails");
    vf_assert(same(*r, g_new[0]), "F01: a read returns exactly the file's bytes");
    vf_assert(holds(kDest, g_new[0]), "F01: reading does not change the file");
  }
  vf_assert(fs_streams() == 0, "F01: every stream is closed");
  vf_assert(vf_heap_live() == heap, "F01: nothing is leaked");
  vf_reach("f01");
}
// Large contents. params: 0 important, 1 size number
VF_ENTRY(f01_big) {
  static const uint64_t kSizes[] = {255, 256, 257, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072};
  const uint64_t n = kSizes[vf_choose(sizeof kSizes / 8, "n")];
  static char big[FS_CAP];
  for (uint64_t i = 0; i < n; i++) big[i] = (char)(i * 7 + (i >> 8) + (i >> 16));
  vf_sym_bytes(big, 1, "head");
  vf_sym_bytes(big + n - 1, 1, "tail");
  (void)rst::GetRandomDevice();
  if (vf_flip("old")) fs_put(kDest, "earlier content", 15);
  fs_lazy = vf_choose(2, "lazy");
  const std::string_view data(big, n);
  auto st = vf_param(0, 0) ? rst::WriteImportantFile(kDest, data) : rst::WriteFile(kDest, data);
  vf_assert(!st.err(), "F01: writing succeeds when nothing fails");
  bool eq = fs_size(kDest) == n;
  const unsigned char* d = fs_data(kDest);
  if (eq) eq = (memcmp(d + 1, big + 1, n - 2) == 0) & (d[0] == (unsigned char)big[0]) & (d[n - 1] == (unsigned char)big[n - 1]);
  vf_assert(eq, "F01: the file holds exactly the given bytes");
  vf_assert(fs_streams() == 0, "F01: every stream is closed");
  vf_reach("f01");
}
// Files around the size of the chunk that is used when the size is unknown. params: 0 base size, 1 sizes to try
VF_ENTRY(f01_chunks) {
  const uint64_t n = vf_param(0, 131070) + vf_choose(vf_param(1, 4), "n");
  static char big[FS_CAP];
  for (uint64_t i = 0; i < n; i++) big[i] = (char)(i * 7 + (i >> 8) + (i >> 16));
  for (uint64_t i = 0; i < 6; i++) big[n - 1 - i] = (char)vf_sym(8, "tail");
  big[0] = (char)vf_sym(8, "head");
  fs_put(kDest, big, n);
  fs_sizes = vf_flip("sizes") ? 2 : 3;       // unavailable, or zero
  auto r = rst::ReadFile(kDest);
  vf_assert(!r.err(), "F01: reading succeeds when nothing fails");
  vf_assert(r->size() == n, "F01: a read returns exactly the file's bytes");
  bool eq = memcmp(r->data() + 1, big + 1, n - 41) == 0;
  eq &= (*r)[0] == big[0];
  for (uint64_t i = n - 40; i < n; i++) eq &= (*r)[i] == big[i];
  vf_assert(eq, "F01: a read returns exactly the file's bytes");
  vf_assert(r->c_str()[n] == '\0', "F01: the result is a proper string");
  vf_reach("f01");
}

// The destination at every instant of an important write. params: 0 bytes, 1 old bytes at most, 2 faults, 3 writes in a row
VF_ENTRY(f02_replace) {
  const uint64_t n = vf_choose(vf_param(0, 2) + 1, "n");
  setup(vf_param(1, 2), n);
  fs_lazy = 2;
  fs_faults = vf_param(2, 2);
  for (uint64_t w = 0; w < vf_param(3, 1); w++) {
    if (w) {   // what is there now is the old content of the next write
      const bool wrote = holds(kDest, g_new[0]) && !isOld();
      if (wrote) { g_old = g_new[0]; g_hadOld = true; }
      symbolic(&g_new[0], n, "new");
    }
    fs_observer = [] {
      vf_assert(isOld() | holds(kDest, g_new[0]), "F02: the destination is never a mixture or a prefix");
      vf_assert(otherIntact(), "F02: no other file is touched");
    };
    const uint64_t faults = fs_faults;
    auto st = rst::WriteImportantFile(kDest, std::string_view(g_new[0].b, n));
    fs_observer = nullptr;
    if (st.err()) {
      vf_assert(isOld(), "F02: a failure leaves the previous content");
      vf_assert((faults != fs_faults) | ((fs_failed & FS_EXISTS) != 0), "F02: a write in which nothing failed succeeds");
      vf_reach("failed");
    } else {
      vf_assert(holds(kDest, g_new[0]), "F02: success means that the new content is in place");
      vf_reach("replaced");
    }
    vf_assert(otherIntact(), "F02: no other file is touched");
  }
}
// Writers of the same file at the same time. params: 0 bytes, 1 old bytes, 2 faults, 3 preemptions
VF_ENTRY(f02_threads) {
  vf_config("preempt", vf_param(3, 3));
  vf_config("race", 1);
  setup(vf_param(1, 0), vf_param(0, 1));
  symbolic(&g_new[1], vf_param(0, 1) + 1, "new");
  fs_lazy = 1;
  fs_yield = 1;
  vm_random_threads = 1;
  fs_faults = vf_param(2, 0);
  fs_observer = [] { vf_assert(isOld() | holds(kDest, g_new[0]) | holds(kDest, g_new[1]), "F02: the destination is never a mixture or a prefix"); };
  bool ok[2] = {};
  {
    std::thread t([&] { auto st = rst::WriteImportantFile(kDest, std::string_view(g_new[1].b, g_new[1].n)); ok[1] = !st.err(); });
    auto st = rst::WriteImportantFile(kDest, std::string_view(g_new[0].b, g_new[0].n));
    ok[0] = !st.err();
    t.join();
  }
  fs_observer = nullptr;
  fs_yield = 0;
  if (ok[0] | ok[1]) vf_assert((ok[0] & holds(kDest, g_new[0])) | (ok[1] & holds(kDest, g_new[1])), "F02: success means that the new content is in place");
  else vf_assert(isOld(), "F02: a failure leaves the previous content");
  vf_assert(otherIntact(), "F02: no other file is touched");
  vf_reach("f02");
}

namespace {
void errorIs(const rst::ErrorInfoBase* e, const char* what) {
  const bool open = (fs_failed & (FS_OPEN | FS_EXISTS)) != 0;
  vf_assert(rst::dyn_cast<rst::FileError>(e) != nullptr, "F03: a failure is a file error");
  vf_assert((rst::dyn_cast<rst::FileOpenError>(e) != nullptr) == open, "F03: it is an open error exactly when the file cannot be opened");
  vf_assert(contains(e->AsString(), what), "F03: the error names the file");
}
// a short write that was then completed is no failure
bool completed() {
  return (fs_failed & ~(uint64_t)FS_REMOVE) == FS_WRITE && fs_exists(kDest) && fs_size(kDest) == g_new[0].n && (!g_new[0].n || memcmp(fs_data(kDest), g_new[0].b, g_new[0].n) == 0);
}
}  // namespace

// params: 0 bytes, 1 faults
VF_ENTRY(f03_write) {
  setup(1, vf_choose(vf_param(0, 2) + 1, "n"));
  fs_lazy = 2;
  fs_faults = vf_param(1, 9);
  const uint64_t heap = vf_heap_live(), before = fs_files();
  {
    auto st = rst::WriteFile(kDest, std::string_view(g_new[0].b, g_new[0].n));
    const bool err = st.err();
    vf_assert(err == (fs_failed != 0) || (!err && completed()), "F03: a call fails exactly when something underneath failed");
    if (err) { errorIs(st.GetError().get(), kDest); vf_reach("failed"); } else vf_reach("fine");
  }
  vf_assert(fs_streams() == 0, "F03: every stream is closed");
  vf_assert(vf_heap_live() == heap + fs_files() - before, "F03: nothing is leaked");
}
VF_ENTRY(f03_read) {
  const uint64_t n = vf_choose(vf_param(0, 2) + 1, "n");
  symbolic(&g_new[0], n, "content");
  if (vf_flip("exists")) fs_put(kDest, g_new[0].b, n);
  fs_sizes = 1;
  fs_faults = vf_param(1, 9);
  const uint64_t heap = vf_heap_live();
  {
    auto r = rst::ReadFile(kDest);
    const bool err = r.err();
    vf_assert(err == (fs_failed != 0), "F03: a call fails exactly when something underneath failed");
    if (err) { errorIs(r.status().GetError().get(), kDest); vf_reach("failed"); } else { vf_assert(same(*r, g_new[0]), "F03: a successful read is complete"); vf_reach("fine"); }
  }
  vf_assert(fs_streams() == 0, "F03: every stream is closed");
  vf_assert(vf_heap_live() == heap, "F03: nothing is leaked");
}
// params: 0 bytes, 1 faults
VF_ENTRY(f03_important) {
  setup(1, vf_choose(vf_param(0, 2) + 1, "n"));
  fs_lazy = 2;
  fs_faults = vf_param(1, 9);
  const uint64_t heap = vf_heap_live(), before = fs_files();
  {
    auto st = rst::WriteImportantFile(kDest, std::string_view(g_new[0].b, g_new[0].n));
    const bool err = st.err();
    vf_assert(err == ((fs_failed & ~(uint64_t)FS_REMOVE) != 0) || (!err && completed()), "F03: a call fails exactly when something underneath failed");
    if (err) { errorIs(st.GetError().get(), kDest); vf_reach("failed"); } else vf_reach("fine");
    const uint64_t want = err ? before : (g_hadOld ? before : before + 1);
    if (!(fs_failed & FS_REMOVE)) vf_assert(fs_files() == want, "F03: no temporary file is left behind");
  }
  vf_assert(otherIntact(), "F03: no other file is touched");
  vf_assert(fs_streams() == 0, "F03: every stream is closed");
  vf_assert(vf_heap_live() == heap + fs_files() - before, "F03: nothing is leaked");
}
