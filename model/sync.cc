// Reader-writer locks and pthread_once on top of mutexes and condition variables, for the engine and the native runtime.
#include <cerrno>
#include <pthread.h>
#include "vf.h"

extern "C" {
// Reader-writer locks: a mutex at the start, the counts and the condition variable's address behind it.
struct RwLock { pthread_mutex_t m; int readers, writer; pthread_cond_t* cv() { return reinterpret_cast<pthread_cond_t*>(&writer + 1); } };
static_assert(sizeof(RwLock) < sizeof(pthread_rwlock_t));
static RwLock* rw(pthread_rwlock_t* l) { return reinterpret_cast<RwLock*>(l); }
int vm_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { *l = {}; return 0; }
int vm_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int vm_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  RwLock* r = rw(l);
  pthread_mutex_lock(&r->m);
  while (r->writer) pthread_cond_wait(r->cv(), &r->m);
  r->readers++;
  return pthread_mutex_unlock(&r->m);
}
int vm_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  RwLock* r = rw(l);
  pthread_mutex_lock(&r->m);
  while (r->writer || r->readers) pthread_cond_wait(r->cv(), &r->m);
  r->writer = 1;
  return pthread_mutex_unlock(&r->m);
}
int vm_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  RwLock* r = rw(l);
  pthread_mutex_lock(&r->m);
  const bool ok = !r->writer;
  r->readers += ok;
  pthread_mutex_unlock(&r->m);
  return ok ? 0 : EBUSY;
}
int vm_pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  RwLock* r = rw(l);
  pthread_mutex_lock(&r->m);
  const bool ok = !r->writer && !r->readers;
  if (ok) r->writer = 1;
  pthread_mutex_unlock(&r->m);
  return ok ? 0 : EBUSY;
}
int vm_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  RwLock* r = rw(l);
  pthread_mutex_lock(&r->m);
  if (r->writer) r->writer = 0; else r->readers--;
  pthread_cond_broadcast(r->cv());
  return pthread_mutex_unlock(&r->m);
}

// A machine with one core or with four.
static uint64_t g_cores = 0;
unsigned vm__ZNSt6thread20hardware_concurrencyEv() {
  uint64_t n = vf_count(&g_cores, 0, 0);
  if (n == 0) n = vf_count(&g_cores, vf_flip("cores") ? 4 : 1, 0);
  return (unsigned)n;
}
static pthread_mutex_t g_onceM = {};
static pthread_cond_t g_onceC = {};
int vm_pthread_once(pthread_once_t* o, void (*f)()) {  // 0 not yet, 1 running, 2 done
  pthread_mutex_lock(&g_onceM);
  while (*o == 1) pthread_cond_wait(&g_onceC, &g_onceM);
  if (*o == 0) {
    *o = 1;
    pthread_mutex_unlock(&g_onceM);
    f();
    pthread_mutex_lock(&g_onceM);
    *o = 2;
    pthread_cond_broadcast(&g_onceC);
  }
  return pthread_mutex_unlock(&g_onceM);
}
}
