// Native runtime for harnesses: replays recorded inputs and thread schedules against the real code.
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <string>
#include <thread>
#include <vector>
#define VF_NATIVE
#include "vf.h"

#ifdef VF_TSAN
// The handoff between threads must not order anything in the eyes of the race detector: an uninstrumented spin lock;
// what the real primitives order is announced explicitly.
#include <sched.h>
#include <sys/syscall.h>
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); }
struct Sem { int v; };
static void semInit(Sem* s) { __atomic_store_n(&s->v, 0, __ATOMIC_SEQ_CST); }
static void semPost(Sem* s) { __atomic_store_n(&s->v, 1, __ATOMIC_SEQ_CST); }
static void semWait(Sem* s) { while (!__atomic_exchange_n(&s->v, 0, __ATOMIC_SEQ_CST)) syscall(SYS_sched_yield); }
static void acq(void* p) { __tsan_acquire(p); }
static void rel(void* p) { __tsan_release(p); }
#else
typedef sem_t Sem;
static void semInit(Sem* s) { sem_init(s, 0, 0); }
static void semPost(Sem* s) { sem_post(s); }
static void semWait(Sem* s) { while (sem_wait(s) != 0) {} }
static void acq(void*) {}
static void rel(void*) {}
#endif

struct In { int kind; uint64_t v; };
static In* g_in;
static size_t g_nin, g_pos;
static char g_obs[1 << 20];
static size_t g_obsLen;
static bool g_expect;
static char g_trapLabel[256];
static std::vector<std::pair<uint64_t, uint64_t>>* g_params;
static std::map<std::string, void (*)()>& table() { static auto* t = new std::map<std::string, void (*)()>(); return *t; }
VfReg::VfReg(const char* n, void (*f)()) { table()[n] = f; }

static volatile long g_heap;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static thread_local bool tl_inRt;
static void mh(const volatile void* p, size_t) { if (p && !tl_inRt) __atomic_add_fetch(&g_heap, 1, __ATOMIC_RELAXED); }
static void fh(const volatile void* p) { if (p && !tl_inRt) __atomic_sub_fetch(&g_heap, 1, __ATOMIC_RELAXED); }
struct InRt { bool o; InRt() : o(tl_inRt) { tl_inRt = true; } ~InRt() { tl_inRt = o; } };

[[noreturn]] static void finish(const char* status, const char* label = "") {
  char b[1024];
  int n = snprintf(b, sizeof b, "\nVFRESULT %s|%s|OUT", status, label);
  (void)!write(1, b, (size_t)n);
  size_t o = 0;
  while (o < g_obsLen) { ssize_t k = write(1, g_obs + o, g_obsLen - o); if (k <= 0) break; o += (size_t)k; }
  (void)!write(1, "\n", 1);
  _exit(0);
}
static void onAbort(int) {
  if (g_expect) {
    g_obsLen += (size_t)snprintf(g_obs + g_obsLen, sizeof g_obs - g_obsLen, " trap:%s=", g_trapLabel);
    finish("OK", "trap");
  }
  finish("ABORT");
}
static uint64_t nextIn(const char* what) {
  if (g_pos >= g_nin) finish("INPUTS-EXHAUSTED", what);
  In& i = g_in[g_pos++];
  if (i.kind != 0) finish("DIVERGED", what);
  return i.v;
}

extern "C" {
uint64_t vf_sym(uint32_t bits, const char* n) { uint64_t v = nextIn(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t vf_range(uint64_t, uint64_t, const char* n) { return nextIn(n); }
uint64_t vf_choose(uint64_t, const char* n) { return nextIn(n); }
void vf_sym_bytes(void* p, uint64_t n, const char* nm) { for (uint64_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)nextIn(nm); }
void vf_assume(int c) { if (!c) finish("ASSUME"); }
void vf_assert_(int c, const char* l) { if (!c) finish("ASSERT", l); }
void vf_fail(const char* l) { finish("ASSERT", l); }
void vf_reach(const char*) {}
void vf_expect_trap(const char* l) { g_expect = l != nullptr; if (l) snprintf(g_trapLabel, sizeof g_trapLabel, "%s", l); }
void vf_observe(const char* n, uint64_t v) { g_obsLen += (size_t)snprintf(g_obs + g_obsLen, sizeof g_obs - g_obsLen, " %s=%llx", n, (unsigned long long)v); }
void vf_observe_bytes(const char* n, const void* p, uint64_t len) {
  g_obsLen += (size_t)snprintf(g_obs + g_obsLen, sizeof g_obs - g_obsLen, " %s=", n);
  for (uint64_t i = 0; i < len && g_obsLen + 4 < sizeof g_obs; i++) g_obsLen += (size_t)snprintf(g_obs + g_obsLen, 3, "%02x", ((const unsigned char*)p)[i]);
}
uint64_t vf_param(uint64_t k, uint64_t d) { for (auto& p : *g_params) if (p.first == k) return p.second; return d; }
uint64_t vf_heap_live() { return (uint64_t)g_heap; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_stop() { finish("OK", "stop"); }
int vf_native() { return 1; }
int vf_trap_expected() { return g_expect; }
}

// ---------------------------------------------------------------- threads, one at a time, following the recorded schedule
enum { READY, WAITCV, JOIN, DONE };
enum { PN_NONE, PN_LOCK, PN_OTHER };
struct T {
  int status = READY, pend = PN_NONE;
  unsigned* lock = nullptr;
  void* cv = nullptr;
  unsigned* mtx = nullptr;
  bool timed = false, timedOut = false;
  uint64_t deadline = 0;
  int joinTid = 0;
  Sem sem;
  void* state = nullptr;
};
static T g_t[12];
static int g_n = 1, g_cur = 0;
static bool g_afterUnlock = true, g_atomics = true;
static thread_local int tl_id = 0;
static uint64_t g_now = 1000000000ULL;
static pthread_key_t g_exitKey;

static int live() { int n = 0; for (int i = 0; i < g_n; i++) if (g_t[i].status != DONE) n++; return n; }
static bool enabled(int i) {
  T& t = g_t[i];
  if (t.status == READY) return t.pend != PN_LOCK || *t.lock == 0;
  if (t.status == JOIN) return g_t[t.joinTid].status == DONE;
  return false;
}
static void doTimeout(int tid, bool tmo) {
  T& t = g_t[tid];
  if (t.status != WAITCV) finish("DIVERGED", "timeout of a thread that does not wait");
  t.status = READY; t.pend = PN_LOCK; t.lock = t.mtx; t.timedOut = tmo;
  if (tmo && t.deadline > g_now) g_now = t.deadline;
}
static void pick() {
  int me = tl_id, nx = -1;
  while (nx < 0) {
    if (g_pos < g_nin) {
      if (g_in[g_pos].kind != 1) finish("DIVERGED", "schedule record expected");
      uint64_t v = g_in[g_pos++].v;
      int act = (int)(v / 1000), tid = (int)(v % 1000);
      if (tid >= g_n) finish("DIVERGED", "no such thread");
      if (act == 0) { if (!enabled(tid)) finish("DIVERGED", "thread not enabled"); nx = tid; }
      else if (act == 1 || act == 2) doTimeout(tid, act == 1);
      else finish("DIVERGED", "unexpected schedule record");
    } else {
      if (enabled(me)) { nx = me; break; }
      for (int i = 0; i < g_n && nx < 0; i++) if (enabled(i)) nx = i;
      if (nx >= 0) break;
      int b = -1;
      for (int i = 0; i < g_n; i++) if (g_t[i].status == WAITCV && g_t[i].timed && (b < 0 || g_t[i].deadline < g_t[b].deadline)) b = i;
      if (b < 0) finish("DEADLOCK");
      doTimeout(b, true);
    }
  }
  g_cur = nx;
  if (nx != me) {
    semPost(&g_t[nx].sem);
    if (g_t[me].status != DONE) semWait(&g_t[me].sem);
  }
}
static void schedPoint(int kind, unsigned* lock) {
  T& t = g_t[tl_id];
  t.pend = kind; t.lock = lock;
  if (live() <= 1) { if (!enabled(tl_id)) finish("DEADLOCK"); t.pend = PN_NONE; return; }
  pick();
  t.pend = PN_NONE;
}
static void threadExit(void*) {
  g_t[tl_id].status = DONE;
  rel(&g_t[tl_id]);
  pick();
}
static void* threadMain(void* p) {
  InRt* r = new InRt();  // allocations of the pthread machinery itself do not count
  int id = (int)(intptr_t)p;
  tl_id = id;
  semWait(&g_t[id].sem);
  g_t[id].pend = PN_NONE;
  pthread_setspecific(g_exitKey, (void*)1);
  tl_inRt = false;
  auto* st = (std::thread::_State*)g_t[id].state;
  st->_M_run();
  delete st;
  (void)r;
  return nullptr;
}
extern "C" void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
static void touch(void* p, size_t n) {  // the address sanitizer's view of accesses to synchronisation objects
  if (__asan_region_is_poisoned && __asan_region_is_poisoned(p, n)) finish("CRASH", "a synchronisation object is used after its memory was released");
}

extern "C" {
int vm_pthread_mutex_lock(pthread_mutex_t* m) {
  unsigned* o = (unsigned*)m;
  touch(m, 4);
  if (*o == (unsigned)tl_id + 1 && (o[4] & 3) == 1) { o[1]++; return 0; }  // recursive
  schedPoint(PN_LOCK, o);
  touch(m, 4);
  if (*o) finish("DEADLOCK", "mutex");
  *o = (unsigned)tl_id + 1;
  acq(m);
  return 0;
}
int vm_pthread_mutex_trylock(pthread_mutex_t* m) {
  unsigned* o = (unsigned*)m;
  touch(m, 4);
  schedPoint(PN_OTHER, nullptr);
  touch(m, 4);
  if (*o == (unsigned)tl_id + 1 && (o[4] & 3) == 1) { o[1]++; return 0; }
  if (*o) return EBUSY;
  *o = (unsigned)tl_id + 1;
  acq(m);
  return 0;
}
int vm_pthread_mutex_unlock(pthread_mutex_t* m) {
  unsigned* o = (unsigned*)m;
  touch(m, 4);
  if (*o != (unsigned)tl_id + 1) finish("CRASH", "unlock of a mutex not held");
  if (o[1]) { o[1]--; return 0; }
  rel(m);
  *o = 0;
  if (g_afterUnlock && live() > 1) schedPoint(PN_OTHER, nullptr);
  return 0;
}
static bool condWait(void* c, unsigned* m, bool timed, uint64_t dl) {
  touch(c, 4);
  if (*m != (unsigned)tl_id + 1) finish("CRASH", "condition wait without the mutex");
  schedPoint(PN_OTHER, nullptr);
  rel(m);
  *m = 0;
  T& t = g_t[tl_id];
  t.status = WAITCV; t.cv = c; t.mtx = m; t.timed = timed; t.deadline = dl; t.timedOut = false;
  pick();
  t.pend = PN_NONE;
  if (*m) finish("DIVERGED", "mutex taken");
  if (timed && !t.timedOut) {
    if (g_pos < g_nin) {
      if (g_in[g_pos].kind != 1) finish("DIVERGED", "late record expected");
      uint64_t v = g_in[g_pos++].v;
      if (v / 1000 == 4) g_now = dl;
      else if (v / 1000 != 3) finish("DIVERGED", "late record expected");
    }
  }
  *m = (unsigned)tl_id + 1;
  acq(m);
  return t.timedOut;
}
int vm_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { condWait(c, (unsigned*)m, false, ~0ull); return 0; }
int vm_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  uint64_t dl;
  if (ts->tv_sec < 0 || (ts->tv_sec == 0 && ts->tv_nsec < 0)) dl = 0;
  else if (ts->tv_sec >= 0x7fffffff0ll) dl = ~0ull - 1;
  else dl = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  return condWait(c, (unsigned*)m, true, dl) ? ETIMEDOUT : 0;
}
int vm_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return vm_pthread_cond_clockwait(c, m, 0, ts); }
void vm__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* ul) { condWait(c, *(unsigned**)ul, false, ~0ull); }
static void wake(int i) { T& t = g_t[i]; t.status = READY; t.pend = PN_LOCK; t.lock = t.mtx; }
static void notifyOne(void* c) {
  touch(c, 4);
  schedPoint(PN_OTHER, nullptr);
  touch(c, 4);
  int w[12], n = 0;
  for (int i = 0; i < g_n; i++) if (g_t[i].status == WAITCV && g_t[i].cv == c) w[n++] = i;
  if (!n) return;
  int k = w[0];
  if (n > 1 && g_pos < g_nin) {
    if (g_in[g_pos].kind != 1 || g_in[g_pos].v / 1000 != 5) finish("DIVERGED", "wake record expected");
    k = (int)(g_in[g_pos++].v % 1000);
  }
  wake(k);
}
static void notifyAll(void* c) {
  touch(c, 4);
  schedPoint(PN_OTHER, nullptr);
  touch(c, 4);
  for (int i = 0; i < g_n; i++) if (g_t[i].status == WAITCV && g_t[i].cv == c) wake(i);
}
void vm__ZNSt18condition_variable10notify_oneEv(void* c) { notifyOne(c); }
void vm__ZNSt18condition_variable10notify_allEv(void* c) { notifyAll(c); }
int vm_pthread_cond_signal(void* c) { notifyOne(c); return 0; }
int vm_pthread_cond_broadcast(void* c) { notifyAll(c); return 0; }
static void cvDtor(void* c) {
  touch(c, 4);
  for (int i = 0; i < g_n; i++) if (g_t[i].status == WAITCV && g_t[i].cv == c) finish("CRASH", "condition variable destroyed while a thread waits on it");
}
void vm__ZNSt18condition_variableD1Ev(void* c) { cvDtor(c); }
void vm__ZNSt18condition_variableD2Ev(void* c) { cvDtor(c); }
void vm__ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void vm__ZNSt18condition_variableC2Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }

void vm__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t* th, void** up, void (*)()) {
  InRt in;
  int id = g_n;
  if (id >= 12) finish("DIVERGED", "too many threads");
  g_t[id] = T();
  semInit(&g_t[id].sem);
  g_t[id].state = *up;
  g_t[id].pend = PN_OTHER;
  *up = nullptr;
  g_n++;
  pthread_t p;
  if (pthread_create(&p, nullptr, threadMain, (void*)(intptr_t)id)) finish("DIVERGED", "pthread_create");
  pthread_detach(p);
  *th = (uint64_t)id + 1;
}
void vm__ZNSt6thread4joinEv(uint64_t* th) {
  if (!*th || *th > (uint64_t)g_n) finish("CRASH", "join of a thread that is not joinable");
  int t = (int)*th - 1;
  T& me = g_t[tl_id];
  me.joinTid = t; me.status = JOIN;
  pick();
  me.status = READY; me.pend = PN_NONE;
  acq(&g_t[t]);
  *th = 0;
}
void vm__ZNSt6thread6detachEv(uint64_t* th) {
  if (!*th) finish("CRASH", "detach of a thread that is not joinable");
  *th = 0;
}
uint64_t vm_pthread_self() { return (uint64_t)tl_id + 1; }
int64_t vm__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)g_now; }
int64_t vm__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)g_now; }
int vm_sched_yield() { schedPoint(PN_OTHER, nullptr); return 0; }
int vm_nanosleep(const struct timespec* a, struct timespec*) {
  schedPoint(PN_OTHER, nullptr);
  g_now += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
  return 0;
}
uint64_t vf_count(uint64_t* p, int64_t d, int sync) {
  touch(p, 8);
  if (sync) acq(p);
  const uint64_t v = *p += (uint64_t)d;
  if (sync) rel(p);
  return v;
}
// Called before every atomic operation of the code under test.
void vf_atomic_point() { if (g_atomics && live() > 1) schedPoint(PN_OTHER, nullptr); }
void vf_escape(void*) {}
void vf_yield() { schedPoint(PN_OTHER, nullptr); }
uint64_t vf_now() { return g_now; }
void vf_set_now(uint64_t t) { g_now = t; }
#ifdef VF_TSAN
static thread_local bool tl_ignore;
void vf_config(const char* k, uint64_t v) {   // models do not take part in race detection
  if (!strcmp(k, "afterunlock")) g_afterUnlock = v; else if (!strcmp(k, "atomics")) g_atomics = v;
  if (strcmp(k, "race") || tl_ignore == !v) return;
  tl_ignore = !v;
  if (!v) { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
  else { AnnotateIgnoreReadsEnd(__FILE__, __LINE__); AnnotateIgnoreWritesEnd(__FILE__, __LINE__); }
}
#else
void vf_config(const char* k, uint64_t v) { if (!strcmp(k, "afterunlock")) g_afterUnlock = v; else if (!strcmp(k, "atomics")) g_atomics = v; }
#endif
int* vm___errno_location() { static thread_local int e; return &e; }

int vm_fprintf_bytes(FILE* f, const char* p, size_t n) __attribute__((weak));
int vm_fprintf(FILE* f, const char* fmt, ...) {
  InRt in;
  va_list ap;
  va_start(ap, fmt);
  char* b = nullptr;
  int n = vasprintf(&b, fmt, ap);
  va_end(ap);
  if (n < 0) return n;
  int r = vm_fprintf_bytes ? vm_fprintf_bytes(f, b, (size_t)n) : -1;
  free(b);
  return r;
}
}

int main(int argc, char** argv) {
  if (argc < 3) return 9;
  std::string entry = argv[1];
  g_params = new std::vector<std::pair<uint64_t, uint64_t>>();
  for (int i = 3; i < argc; i++) { char* e; uint64_t k = strtoull(argv[i], &e, 0); g_params->push_back({k, strtoull(e + 1, nullptr, 0)}); }
  auto it = table().find(entry);
  if (it == table().end()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 9; }
  FILE* f = fopen(argv[2], "r");
  if (!f) return 9;
  char* line = nullptr;
  size_t cap = 0;
  int idx = 0;
  while (getline(&line, &cap, f) > 0) {
    std::vector<In> in;
    char* save;
    for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(nullptr, " \n", &save)) {
      char* c = strchr(t, ':');
      if (!c) continue;
      in.push_back({atoi(t), strtoull(c + 1, nullptr, 16)});
    }
    fflush(stdout);
    int pfd[2];
    if (pipe(pfd)) return 9;
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]);
      dup2(pfd[1], 1);
      dup2(pfd[1], 2);
      struct rlimit rl = {20, 20};
      setrlimit(RLIMIT_CPU, &rl);
      rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      g_in = in.data(); g_nin = in.size(); g_pos = 0;
      signal(SIGABRT, onAbort);
      atexit([] { finish("CRASH", "exit() called"); });
      pthread_key_create(&g_exitKey, threadExit);
      semInit(&g_t[0].sem);
      if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
      it->second();
      finish("OK");
    }
    close(pfd[1]);
    std::string out;
    char buf[4096];
    time_t t0 = time(nullptr);
    bool hang = false;
    while (true) {
      struct pollfd pf = {pfd[0], POLLIN, 0};
      int r = poll(&pf, 1, 1000);
      if (r > 0) { ssize_t k = read(pfd[0], buf, sizeof buf); if (k <= 0) break; out.append(buf, (size_t)k); }
      if (time(nullptr) - t0 > 25) { kill(p, SIGKILL); hang = true; break; }
    }
    close(pfd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    size_t at = out.find("\nVFRESULT ");
    std::string rep;
    if (at != std::string::npos) rep = out.substr(at + 10, out.find('\n', at + 1) - at - 10);
    else if (hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)) rep = "HANG||OUT";
    else rep = "CRASH|" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "|OUT";
    printf("%d %s\n", idx, rep.c_str());
    if (at == std::string::npos || rep.rfind("OK", 0) != 0) {
      std::string msg = out.substr(0, std::min<size_t>(out.size(), 1500));
      for (char& c : msg) if (c == '\n') c = '\x1f';
      printf("#%d %s\n", idx, msg.c_str());
    }
    fflush(stdout);
    idx++;
  }
  return 0;
}
