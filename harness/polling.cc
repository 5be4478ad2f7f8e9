// K01-K02: the polled task runner.
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include "rst/task_runner/polling_task_runner.h"
#include "vf.h"

using std::chrono::nanoseconds;

namespace {
struct Clock {            // read by every thread
  mutable uint64_t t = 0;
  int64_t load() const { return (int64_t)vf_count(&t, 0, 1); }
  void operator=(int64_t v) { vf_count(&t, v - load(), 1); }
};
struct Posted { __int128 due; bool posted = false, before = false; uint64_t ran = 0; };
struct World {
  rst::PollingTaskRunner* r = nullptr;
  int64_t now = 0;
  std::vector<Posted> tasks;
  std::vector<uint64_t> log;
  uint64_t nested = 0;
  bool polling = false;
};
// a task with more state than fits into a function object itself
struct Task {
  World* w;
  uint64_t id, check, nest;
  void operator()() const;
};
// param 3: bits of the clock, 0 for the whole range; 4: one path for each of so many steps of the clock instead
uint64_t maxDelay() { return vf_param(3, 0) ? (uint64_t{1} << vf_param(3, 0)) - 1 : INT64_MAX; }
int64_t anyClock(const char* n, int64_t now = 0) {
  if (vf_param(4, 0)) return now + (int64_t)vf_choose(vf_param(4, 0), n);
  if (vf_param(3, 0)) return (int64_t)vf_range(0, (uint64_t{1} << vf_param(3, 0)) - 1, n);
  const int64_t t = (int64_t)vf_sym(64, n);
  vf_assume(t != INT64_MAX);
  return t;
}
void post(World& w, uint64_t nest) {
  const int64_t delay = (int64_t)(vf_param(4, 0) ? vf_choose(vf_param(4, 0), "delay") : vf_range(0, maxDelay(), "delay"));
  const uint64_t id = w.tasks.size();
  Posted p;
  p.due = (__int128)w.now + delay;
  p.posted = true;
  w.tasks.push_back(p);
  w.r->PostDelayedTask(Task{&w, id, ~id, nest}, nanoseconds(delay));
}
void Task::operator()() const {
  vf_assert(check == ~id, "K01: a running task is intact");
  vf_assert(w->polling, "K01: tasks run only in a poll");
  w->tasks[id].ran++;
  w->log.push_back(id);
  if (nest && w->nested) {
    w->nested--;
    vf_reach("nested");
    post(*w, nest - 1);
  }
}
void poll(World& w) {
  const int64_t t = anyClock("clock", w.now);
  vf_assume(t >= w.now);
  w.now = t;
  for (auto& p : w.tasks) p.before = true;
  w.log.clear();
  std::vector<bool> todo;
  std::vector<uint64_t> was;
  for (auto& p : w.tasks) was.push_back(p.ran);
  w.polling = true;
  w.r->RunPendingTasks();
  w.polling = false;
  for (size_t i = 0; i < w.tasks.size(); i++) {
    const auto& p = w.tasks[i];
    if (i < was.size()) {
      const uint64_t want = was[i] + (was[i] == 0 && p.due <= w.now ? 1 : 0);
      vf_assert(p.ran == want, "K01: a poll runs exactly the due tasks posted before it, each once");
    } else {
      vf_assert(p.ran == 0, "K01: a task posted during a poll waits for the next one");
    }
  }
  for (size_t i = 1; i < w.log.size(); i++) {
    const auto &a = w.tasks[w.log[i - 1]], &b = w.tasks[w.log[i]];
    vf_assert(a.due < b.due || (a.due == b.due && w.log[i - 1] < w.log[i]), "K01: tasks run by due time, ties in posting order");
  }
  if (w.log.size() > 1) vf_reach("several");
}
}  // namespace

// params: 0 steps, 1 posts at most, 2 posts from running tasks
VF_ENTRY(k01_history) {
  const uint64_t heap = vf_heap_live();
  {
    World w;
    if (!vf_param(4, 0)) w.now = anyClock("start");
    w.nested = vf_param(2, 1);
    uint64_t left = vf_param(1, 3);
    rst::PollingTaskRunner r([&w] { return nanoseconds(w.now); });
    w.r = &r;
    bool last = true;
    for (uint64_t s = 0, e = vf_param(0, 4); s < e; s++) {
      if (left && vf_flip("post")) { left--; post(w, w.nested); last = false; }
      else { if (last) vf_stop(); poll(w); last = w.nested == vf_param(2, 1); }
    }
    vf_observe("n", w.tasks.size());
    for (auto& p : w.tasks) vf_observe("ran", p.ran);
  }
  vf_assert(vf_heap_live() == heap, "K01: nothing is leaked, tasks never run are destroyed");
  vf_reach("k01");
}

// Many tasks in one poll: params 0 how many, 1 the longest delay, 2: one path per order of the delays, 3: all delays but one follow a pattern. Delays are small so that ties are common.
VF_ENTRY(k01_order) {
  World w;
  rst::PollingTaskRunner r([&w] { return nanoseconds(w.now); });
  w.r = &r;
  const uint64_t n = vf_param(0, 5);
  const uint64_t pattern = vf_param(3, 0) ? 1 + vf_choose(4, "pattern") : 0, at = pattern ? vf_choose(3, "at") * (n - 1) / 2 : 0, mod = vf_param(1, 7) + 1;
  for (uint64_t i = 0; i < n; i++) {
    const bool given = pattern && i != at;
    const int64_t delay = (int64_t)(given ? (pattern == 1 ? i : pattern == 2 ? n - i : pattern == 3 ? 3 : i * 5 + i / 7) % mod : vf_param(2, 0) ? vf_choose(vf_param(1, 7), "delay") : vf_range(0, vf_param(1, 7), "delay"));
    Posted p;
    p.due = w.now + delay;
    w.tasks.push_back(p);
    r.PostDelayedTask(Task{&w, i, ~i, 0}, nanoseconds(delay));
  }
  auto ordered = [&] {
    bool ok = true;
    for (size_t i = 1; i < w.log.size(); i++) {
      const auto &a = w.tasks[w.log[i - 1]], &b = w.tasks[w.log[i]];
      ok &= (a.due < b.due) | ((a.due == b.due) & (w.log[i - 1] < w.log[i]));
    }
    return ok;
  };
  w.now = (int64_t)(vf_param(2, 0) ? vf_choose(vf_param(1, 7), "clock") : vf_range(0, vf_param(1, 7), "clock"));
  w.polling = true;
  r.RunPendingTasks();
  bool exact = true;
  for (size_t i = 0; i < n; i++) exact &= (w.tasks[i].due <= w.now) ? w.tasks[i].ran == 1 : w.tasks[i].ran == 0;
  vf_assert(exact, "K01: a poll runs exactly the due tasks posted before it, each once");
  vf_assert(ordered(), "K01: tasks run by due time, ties in posting order");
  w.now = (int64_t)vf_param(1, 7);
  w.log.clear();
  r.RunPendingTasks();
  for (size_t i = 0; i < n; i++) vf_assert(w.tasks[i].ran == 1, "K01: a task that was not due stays queued");
  vf_assert(ordered(), "K01: tasks run by due time, ties in posting order");
  vf_reach("k01");
}

VF_ENTRY(k01_negative) {
  rst::PollingTaskRunner r([] { return nanoseconds(0); });
  const int64_t delay = (int64_t)vf_sym(64, "delay");
  vf_assume(delay < 0);
  vf_reach("aborts");
  vf_expect_trap("K01: a negative delay aborts");
  r.PostDelayedTask([] {}, nanoseconds(delay));
  vf_fail("K01: a negative delay aborts");
}

// Posting threads against one polling thread. params: 0 posters, 1 tasks each, 2 polls meanwhile, 3 delayed
VF_ENTRY(k02_post) {
  vf_config("preempt", vf_param(4, 3));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t heap = vf_heap_live();
  {
    const uint64_t posters = vf_param(0, 2), each = vf_param(1, 2), polls = vf_param(2, 1);
    Clock clock;
    std::vector<uint64_t> log;             // touched by the polling thread only
    rst::PollingTaskRunner r([&clock] { return nanoseconds(clock.load()); });
    std::vector<std::thread> ts;
    for (uint64_t p = 0; p < posters; p++)
      ts.emplace_back([&, p] {
        for (uint64_t i = 0; i < each; i++) {
          const uint64_t id = p * 10 + i;
          r.PostDelayedTask([&log, q = std::vector<uint64_t>(1, id)] { log.push_back(q[0]); }, nanoseconds(vf_param(3, 0)));
        }
      });
    for (uint64_t i = 0; i < polls; i++) r.RunPendingTasks();
    if (vf_param(3, 0)) vf_assert(log.empty(), "K02: a task never runs before it is due");
    for (auto& t : ts) t.join();
    clock = (int64_t)vf_param(3, 0);
    r.RunPendingTasks();
    vf_assert(log.size() == posters * each, "K02: every posted task runs exactly once");
    for (uint64_t p = 0; p < posters; p++) {
      uint64_t next = p * 10;
      for (uint64_t id : log)
        if (id / 10 == p) { vf_assert(id == next, "K02: equally delayed tasks of one thread run in posting order, once"); next++; }
      vf_assert(next == p * 10 + each, "K02: every posted task runs exactly once");
    }
    r.RunPendingTasks();
    vf_assert(log.size() == posters * each, "K02: no task runs twice");
  }
  vf_assert(vf_heap_live() == heap, "K02: nothing is leaked");
  vf_reach("k02");
}

// Every delay and every clock reading while threads post. params: 0 posters, 1 tasks each, 4 preemptions
VF_ENTRY(k02_delays) {
  vf_config("preempt", vf_param(4, 3));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t posters = vf_param(0, 2), each = vf_param(1, 1), n = posters * each;
  const int64_t t1 = (int64_t)vf_range(0, 1ull << 61, "clock");
  Clock clock;
  struct Posted { int64_t delay = 0, before = 0, after = 0; uint64_t ran = 0; int64_t at = 0; } tasks[4];
  for (uint64_t i = 0; i < n; i++) tasks[i].delay = (int64_t)vf_range(0, 1ull << 61, "delay");
  std::vector<uint64_t> log;
  {
    rst::PollingTaskRunner r([&clock] { return nanoseconds(clock.load()); });
    std::vector<std::thread> ts;
    for (uint64_t p = 0; p < posters; p++)
      ts.emplace_back([&, p] {
        for (uint64_t i = p * each; i < (p + 1) * each; i++) {
          auto* t = &tasks[i];
          t->before = clock.load();
          r.PostDelayedTask([t, i, &log, &clock] { t->ran++; t->at = clock.load(); log.push_back(i); }, nanoseconds(t->delay));
        }
      });
    r.RunPendingTasks();
    clock = t1;
    r.RunPendingTasks();
    for (auto& t : ts) t.join();
    clock = INT64_MAX - 1;
    r.RunPendingTasks();
    r.RunPendingTasks();
  }
  bool once = true, early = false, order = true;
  for (uint64_t i = 0; i < n; i++) { once &= tasks[i].ran == 1; early |= tasks[i].at < tasks[i].before + tasks[i].delay; }
  // tasks of one thread: an earlier posted one that is not due later never runs later
  for (uint64_t a = 0; a < log.size(); a++)
    for (uint64_t b = a + 1; b < log.size(); b++)
      if (log[a] / each == log[b] / each && log[a] > log[b]) order &= tasks[log[b]].delay > tasks[log[a]].delay;
  vf_assert(once, "K02: every posted task runs exactly once");
  vf_assert(!early, "K02: a task never runs before it is due");
  vf_assert(order, "K02: tasks of one thread run in due order");
  vf_reach("k02");
}

// Tasks that post again from the polling thread while others post.
VF_ENTRY(k02_nested) {
  vf_config("preempt", vf_param(4, 3));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  std::vector<uint64_t> log;
  rst::PollingTaskRunner r([] { return nanoseconds(5); });
  r.PostTask([&] { log.push_back(1); r.PostTask([&] { log.push_back(2); }); });
  std::thread t([&] { r.PostTask([&] { log.push_back(3); }); r.PostDelayedTask([&] { log.push_back(4); }, nanoseconds(1)); });
  r.RunPendingTasks();
  t.join();
  r.RunPendingTasks();
  r.RunPendingTasks();
  uint64_t seen[5] = {};
  for (uint64_t x : log) seen[x]++;
  vf_assert(seen[1] == 1 && seen[2] == 1 && seen[3] == 1, "K02: every posted task runs exactly once");
  vf_assert(seen[4] == 0, "K02: a task never runs before it is due");
  vf_reach("k02");
}

// H04 on a polled runner: other threads apply while this one polls. params: 0 iterations, 1 callers, 2 polls at any time, 3 an ordinary task is posted as well
VF_ENTRY(h04_polled) {
  vf_config("preempt", vf_param(4, 3));
  vf_config("timeouts", 0);
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t heap = vf_heap_live(), n = vf_param(0, 2), callers = vf_param(1, 1);
  {
    Clock clock;
    clock = (int64_t)(vf_param(5, 1) ? vf_range(0, INT64_MAX - 1, "clock") : 5);
    rst::PollingTaskRunner r([&clock] { return nanoseconds(clock.load()); });
    uint64_t finished = 0, plain = 0, posted = 0;
    std::mutex idle;
    std::condition_variable cv;
    std::vector<std::thread> ts;
    for (uint64_t c = 0; c < callers; c++)
      ts.emplace_back([&] {
        uint64_t count[320] = {}, next = 0;
        if (vf_param(3, 0)) { r.PostTask([&plain] { plain++; }); vf_count(&posted, 1, 0); }
        r.ApplyTaskSync([&count, &next, n](size_t i) {
          vf_assert(i < n, "H04: only the indices of the range are used");
          vf_assert(i == next++, "H04: a polled runner uses the indices in order");
          count[i]++;            // a plain write: the race check sees whether the caller is ordered after it
        }, n);
        for (uint64_t i = 0; i < n; i++) vf_assert(count[i] == 1, "H04: synchronous apply runs every index exactly once before it returns");
        vf_count(&finished, 1, 0);
      });
    for (uint64_t i = 0; i < vf_param(2, 1); i++) r.RunPendingTasks();
    while (vf_count(&finished, 0, 0) < callers) {
      r.RunPendingTasks();
      std::unique_lock<std::mutex> l(idle);
      cv.wait_for(l, nanoseconds(1));     // times out when no other thread can go on
    }
    for (auto& t : ts) t.join();
    r.RunPendingTasks();
    vf_assert(plain == vf_count(&posted, 0, 0), "H04: tasks posted next to an apply run once");
  }
  vf_assert(vf_heap_live() == heap, "H04: nothing is leaked");
  vf_reach("h04");
}
