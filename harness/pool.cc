// H01-H04: the thread pool, under every interleaving within the bounds.
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include "rst/task_runner/thread_pool_task_runner.h"
#include "vf.h"

using rst::ThreadPoolTaskRunner;
using std::chrono::nanoseconds;

namespace {
uint64_t ld(const uint64_t& x) { return vf_count(const_cast<uint64_t*>(&x), 0, 0); }
uint64_t inc(uint64_t& x) { return vf_count(&x, 1, 0); }
void dec(uint64_t& x) { vf_count(&x, -1, 0); }
nanoseconds clockNow() { return nanoseconds((int64_t)vf_now()); }
void config(uint64_t k) {   // params k.. : preemptions, timeouts that happen although something else could go on, spurious wakeups
  vf_config("preempt", vf_param(k, 2));
  vf_config("timeouts", vf_param(k + 1, 1));
  vf_config("spurious", vf_param(k + 2, 0));
  vf_config("race", vf_param(k + 3, 1));
}
nanoseconds duration(uint64_t k, int64_t dflt, const char* name) {   // parameter k: 0 any value of up to a year, 1 any value at all, otherwise that value
  const uint64_t v = vf_param(k, dflt);
  if (v > 1) return nanoseconds((int64_t)v);
  return nanoseconds((int64_t)vf_range(1, v ? (uint64_t)INT64_MAX : uint64_t{31536000000000000}, name));
}
// Counts what is done, and lets somebody wait for it. A task that is never run makes the wait a deadlock.
struct Done {
  std::mutex m;
  std::condition_variable cv;
  uint64_t n = 0;
  void one() { std::lock_guard<std::mutex> l(m); n++; cv.notify_all(); }
  void wait(uint64_t k) { std::unique_lock<std::mutex> l(m); while (n < k) cv.wait(l); }
};
// Lets the clock move on by d, but not past anything another thread waits for.
void pass(int64_t d) {
  const int64_t until = clockNow().count() + d;
  std::mutex m;
  std::condition_variable cv;
  std::unique_lock<std::mutex> l(m);
  while (clockNow().count() < until) cv.wait_for(l, nanoseconds(until - clockNow().count()));
}
struct Token {     // lives exactly as long as its task
  explicit Token(uint64_t* l) : live(l) { inc(*live); }
  ~Token() { dec(*live); }
  Token(const Token&) = delete;
  uint64_t* live;
};
}  // namespace

// params: 0 thread limit, 1 tasks posted by the main thread, 2 by another thread, 3 wait for each before the next, 4.. schedule, 8 delay of every second task, 9 keep-alive time (see duration()),
// 10 number of tasks that post another one while they run, 11 tasks must start on time (no early timeouts in the schedule), 13 how long each task takes, 14 tasks that ran before,
// 15 every task has the delay
VF_ENTRY(h01_run) {
  config(4);
  const uint64_t mine = vf_param(1, 2), theirs = vf_param(2, 0), nested = vf_param(10, 0), n = mine + theirs + nested;
  uint64_t ran[48] = {}, live = 0;
  {
    Done done;
    auto pool = std::make_unique<ThreadPoolTaskRunner>(vf_param(0, 1), clockNow, duration(9, 100, "keep_alive"));
    auto delay = [](uint64_t i) { return nanoseconds(i % 2 || vf_param(15, 0) ? (int64_t)vf_param(8, 0) : 0); };
    auto* runner = pool.get();
    if (const uint64_t warm = vf_param(14, 0)) {
      Done before;
      for (uint64_t i = 0; i < warm; i++) runner->PostTask([&] { before.one(); });
      before.wait(warm);
    }
    // when time passes only while every thread waits, a task starts at the very moment it is due
    auto onTime = [&](uint64_t i, int64_t posted) { if (vf_param(11, 0)) vf_assert(clockNow().count() == posted + delay(i).count(), "H01: a task starts as soon as it is due when a thread is free"); };
    auto post = [&](uint64_t i) {
      auto token = std::make_shared<Token>(&live);
      runner->PostDelayedTask([&, i, token, posted = clockNow().count()] {
        onTime(i, posted);
        if (vf_param(13, 0)) pass((int64_t)vf_param(13, 0));
        if (i < nested) {
          const uint64_t k = mine + theirs + i;
          runner->PostDelayedTask([&ran, &done, &onTime, k, token, posted = clockNow().count()] { onTime(k, posted); if (vf_param(13, 0)) pass((int64_t)vf_param(13, 0)); inc(ran[k]); done.one(); }, delay(k));
        }
        inc(ran[i]);
        done.one();
      }, delay(i));
    };
    std::thread other;
    if (theirs) other = std::thread([&] { for (uint64_t i = 0; i < theirs; i++) post(mine + i); });
    for (uint64_t i = 0; i < mine; i++) { post(i); if (vf_param(3, 0)) done.wait(i + 1); if (vf_param(12, 0) && vf_flip("pause")) pass((int64_t)vf_param(12, 0)); }
    if (theirs) other.join();
    done.wait(n);
    for (uint64_t i = 0; i < n; i++) vf_assert(ld(ran[i]) == 1, "H01: every accepted task runs exactly once");
    pool.reset();
    for (uint64_t i = 0; i < n; i++) vf_assert(ld(ran[i]) == 1, "H01: every accepted task runs exactly once");
    vf_assert(ld(live) == 0, "H01: no task is kept after the pool is gone");
  }
  vf_reach("h01");
}

// params: 0 thread limit, 1 tasks, 2 rounds, 3 delayed, 4.. schedule. Idle workers end: a thread-local object of each worker is destroyed.
namespace {
Done* g_ended;
uint64_t g_workers;
int64_t g_keep;     // a year at most
struct PerWorker {
  PerWorker() { inc(g_workers); }
  ~PerWorker() {
    const int64_t idle = clockNow().count() - last;
    vf_assert(idle >= g_keep, "H05: a worker thread stays for its keep-alive time");
    if (vf_param(11, 0) && vf_param(0, 1) == 1) vf_assert(idle == g_keep, "H05: a worker thread ends when it has been idle for the keep-alive time");
    std::lock_guard<std::mutex> l(g_ended->m);
    dec(g_workers);
    g_ended->n++;
    g_ended->cv.notify_all();
  }
  int64_t last = 0;
};
thread_local PerWorker t_worker;
}  // namespace
VF_ENTRY(h05_idle) {
  config(4);
  const uint64_t limit = vf_param(0, 1), n = vf_param(1, 1), rounds = vf_param(2, 1);
  {
    Done done, ended;
    g_ended = &ended;
    g_workers = 0;
    const nanoseconds keep = duration(9, 100, "keep_alive");
    g_keep = keep < std::chrono::hours(24 * 365) ? keep.count() : 31536000000000000;
    auto pool = std::make_unique<ThreadPoolTaskRunner>(limit, clockNow, keep);
    for (uint64_t r = 0; r < rounds; r++) {
      for (uint64_t i = 0; i < n; i++) {
        const nanoseconds delay = vf_param(3, 0) ? duration(8, 0, "delay") : nanoseconds(0);
        pool->PostDelayedTask([&, due = clockNow() + delay] {
          if (vf_param(11, 0)) vf_assert(clockNow() == due, "H05: a task posted to an idle pool starts as soon as it is due");
          t_worker.last = clockNow().count();
          done.one();
        }, delay);
      }
      done.wait(n * (r + 1));
      // nothing is posted any more: every worker that ran a task ends (otherwise this waits for ever)
      { std::unique_lock<std::mutex> l(ended.m); while (ld(g_workers) != 0) ended.cv.wait(l); }
    }
    vf_assert(ended.n >= rounds, "H05: worker threads end when they have been idle for the keep-alive time");
    pool.reset();
  }
  vf_reach("h05");
}

// params: 0 thread limit, 1 tasks, 2 delayed tasks, 3 iterations of each, 4.. schedule
VF_ENTRY(h02_shutdown) {
  config(4);
  const uint64_t limit = vf_param(0, 1), now_ = vf_param(1, 2), later = vf_param(2, 0), n = now_ + later;
  uint64_t ran[6] = {}, live = 0, running = 0, gone = 0;
  {
    auto pool = std::make_unique<ThreadPoolTaskRunner>(limit, clockNow, duration(9, 100, "keep_alive"));
    for (uint64_t i = 0; i < n; i++) {
      auto token = std::make_shared<Token>(&live);
      pool->PostDelayedTask([&, i, token] {
        vf_assert(inc(running) <= limit, "H02: no more threads than the limit run tasks");
        vf_assert(!ld(gone), "H02: no task runs after the pool is destroyed");
        inc(ran[i]);
        vf_yield();
        vf_assert(!ld(gone), "H02: destroying the pool waits for running tasks");
        dec(running);
      }, i < now_ ? nanoseconds(0) : duration(8, 10 * (int64_t)(i - now_ + 1), "delay"));
    }
    if (vf_param(3, 0)) std::this_thread::sleep_for(nanoseconds(vf_param(3, 0)));
    const int64_t before = clockNow().count();
    pool.reset();
    if (vf_param(11, 0)) vf_assert(clockNow().count() == before, "H02: destroying the pool does not wait for anything but running tasks");
    inc(gone);
    vf_assert(ld(running) == 0, "H02: destroying the pool waits for running tasks");
    vf_assert(ld(live) == 0, "H02: everything unstarted is destroyed with the pool");
    for (uint64_t i = 0; i < n; i++) vf_assert(ld(ran[i]) <= 1, "H02: no task runs more than once");
    vf_yield();
    vf_assert(ld(running) == 0 && ld(live) == 0, "H02: no task runs after the pool is destroyed");
  }
  vf_reach("h02");
}

// params: 0 thread limit, 1 tasks, 2 which delays, 3 how many of them (0: see duration(), parameter 8), 4.. schedule, 11: time passes only while every thread waits (no early timeouts in the schedule),
// so that every task must start at the very moment it is due, 12: the clock may move on by so much between two posts, 13: all delays but one follow a pattern, below this
VF_ENTRY(h03_delay) {
  config(4);
  const uint64_t limit = vf_param(0, 1), n = vf_param(1, 2);
  uint64_t ran[320] = {}, live = 0;
  int64_t due[320] = {};
  bool wanted[320] = {};
  constexpr int64_t kWaited = 63072000000000000;   // two years: tasks that are due later are not waited for
  std::vector<uint64_t> order;
  {
    Done done;
    auto pool = std::make_unique<ThreadPoolTaskRunner>(limit, clockNow, duration(9, 100, "keep_alive"));
    static const int64_t kDelays[][4] = {{1, 20, 60, 5}, {1000, 30, 30, 500}, {INT64_MAX, 1, int64_t{1} << 62, INT64_MAX - 1}, {7, 7, 7, 7}};
    const int64_t* delays = kDelays[vf_param(2, 0)];
    uint64_t expect = 0;
    bool same = true;
    const uint64_t pattern = vf_param(13, 0) ? 1 + vf_choose(4, "pattern") : 0, at = pattern ? vf_choose(3, "at") * (n - 1) / 2 : 0;
    for (uint64_t i = 0; i < n; i++) {
      auto token = std::make_shared<Token>(&live);
      const int64_t d = pattern && i != at ? 1 + (int64_t)((pattern == 1 ? i : pattern == 2 ? n - i : pattern == 3 ? 3 : i * 5 + i / 7) % vf_param(13, 0)) : vf_param(3, 3) ? delays[vf_choose(vf_param(3, 3), "delay")] : duration(8, 0, "delay").count();
      if (i && vf_param(12, 0) && vf_flip("pause")) pass((int64_t)vf_param(12, 0));
      const int64_t before = clockNow().count();
      due[i] = d > INT64_MAX - before ? INT64_MAX : before + d;
      wanted[i] = d <= kWaited;
      if (wanted[i]) expect++;
      if (before != (int64_t)1000000000) same = false;
      pool->PostDelayedTask([&, i, token] {
        vf_assert(clockNow().count() >= due[i], "H03: a delayed task never runs early");
        if (vf_param(11, 0)) vf_assert(clockNow().count() == due[i], "H03: a delayed task starts as soon as it is due when a thread is free");
        inc(ran[i]);
        if (limit == 1) order.push_back(i);
        done.one();
      }, nanoseconds(d));
      if (clockNow().count() != before) same = false;
    }
    done.wait(expect);
    pool.reset();
    for (uint64_t i = 0; i < n; i++) vf_assert(wanted[i] ? ld(ran[i]) == 1 : ld(ran[i]) <= 1, "H03: a delayed task runs exactly once, when it is due");
    vf_assert(ld(live) == 0, "H03: no task is kept after the pool is gone");
    // tasks that were all queued before any was due run in due order
    if (limit == 1 && same)
      for (size_t i = 1; i < order.size(); i++)
        vf_assert((due[order[i - 1]] < due[order[i]]) | ((due[order[i - 1]] == due[order[i]]) & (order[i - 1] < order[i])), "H03: a single thread starts tasks in due order, ties in posting order");
  }
  vf_reach("h03");
}

// params: 0 thread limit, 1 iterations, 2 callers, 4.. schedule
VF_ENTRY(h04_apply) {
  config(4);
  const uint64_t limit = vf_param(0, 2), n = vf_param(1, 2), callers = vf_param(2, 1);
  uint64_t live = 0;
  {
    auto pool = std::make_unique<ThreadPoolTaskRunner>(limit, clockNow, duration(9, 100, "keep_alive"));
    auto apply = [&] {
      uint64_t few[8] = {};
      const std::unique_ptr<uint64_t[]> many(n > 8 ? new uint64_t[n]() : nullptr);
      uint64_t* const count = n > 8 ? many.get() : few;
      auto token = std::make_shared<Token>(&live);
      pool->ApplyTaskSync([count, n, token](size_t i) {
        vf_assert(i < n, "H04: only the indices of the range are used");
        count[i]++;            // a plain write: the race check sees whether the caller is ordered after it
      }, n);
      for (uint64_t i = 0; i < n; i++) vf_assert(count[i] == 1, "H04: synchronous apply runs every index exactly once before it returns");
    };
    std::vector<std::thread> ts;
    for (uint64_t c = 1; c < callers; c++) ts.emplace_back(apply);
    apply();
    for (auto& t : ts) t.join();
    pool.reset();
    vf_assert(ld(live) == 0, "H04: no task is kept after the pool is gone");
  }
  vf_reach("h04");
}

// H06: tasks that wait for each other all run at the same time if the limit allows it.
// params: 0 thread limit, 1 tasks that meet, 2 tasks run before, 3 how they come: 0 posted one by one, 1 synchronous apply, 2 with the same delay, 3 posted by different threads, 4 one posts the next, 4.. schedule, 8 meetings
VF_ENTRY(h06_meet) {
  config(4);
  const uint64_t limit = vf_param(0, 2), n = vf_param(1, 2), warm = vf_param(2, 0), how = vf_param(3, 0), rounds = vf_param(8, 1);
  uint64_t live = 0;
  {
    Done ran, here;
    auto pool = std::make_unique<ThreadPoolTaskRunner>(limit, clockNow, duration(9, 100, "keep_alive"));
    if (warm) {
      for (uint64_t i = 0; i < warm; i++) pool->PostTask([&] { ran.one(); });
      ran.wait(warm);
    }
    for (uint64_t r = 0; r < rounds; r++) {
      const uint64_t all = n * (r + 1);
      const int64_t due = clockNow().count() + (how == 2 ? 10 : 0);
      auto meet = [&, all, token = std::make_shared<Token>(&live)] {
        here.one();
        here.wait(all);        // for ever if one of the others never gets a thread
        if (how != 1) ran.one();
      };
      if (how == 1) {
        pool->ApplyTaskSync([meet](size_t) { meet(); }, n);
      } else if (how == 3) {
        std::vector<std::thread> ts;
        for (uint64_t i = 1; i < n; i++) ts.emplace_back([&] { pool->PostTask(std::function<void()>(meet)); });
        pool->PostTask(std::function<void()>(meet));
        for (auto& t : ts) t.join();
      } else if (how == 4) {
        pool->PostTask([&, meet] {
          for (uint64_t i = 1; i < n; i++) pool->PostTask(std::function<void()>(meet));
          meet();
        });
      } else {
        for (uint64_t i = 0; i < n; i++) pool->PostDelayedTask(std::function<void()>(meet), nanoseconds(how == 2 ? 10 : 0));
      }
      if (how != 1) ran.wait(warm + all);
      // time passes only while every thread waits
      if (vf_param(11, 0)) vf_assert(clockNow().count() == due, "H06: tasks that wait for each other run at once");
    }
    vf_assert(here.n == n * rounds, "H06: every task runs");
    pool.reset();
    vf_assert(ld(live) == 0, "H06: no task is kept after the pool is gone");
  }
  vf_reach("h06");
}
