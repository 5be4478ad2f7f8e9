// O01: the one-shot timer, against what was armed last.
#include <chrono>
#include <functional>
#include <memory>
#include <utility>
#include <vector>
#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"
#include "vf.h"

using std::chrono::nanoseconds;

namespace {
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
// A runner that hands out the posted tasks in any order.
struct AnyRunner final : rst::TaskRunner {
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds delay, size_t n) override {
    vf_assert(n == 0 && delay.count() >= 0, "O01: one task is posted per start");
    posted.push_back(std::move(task));
  }
  std::vector<std::function<void()>> posted;
};

struct World {
  std::unique_ptr<rst::OneShotTimer> timer;
  rst::TaskRunner* runner = nullptr;
  bool any = false;
  int64_t now = 0;
  uint64_t starts = 0;         // tasks are numbered by their start
  uint64_t armed = 0;          // number of the armed task, 0: none
  int64_t due = 0;
  uint64_t allowed = 0;        // the task that may run now
  uint64_t runs = 0;
  uint64_t nested = 0;         // how deep callbacks may start again
};

void start(World& w);
void fire(World& w);
void begun(World& w, uint64_t id, uint64_t depth) {
  vf_reach("ran");
  vf_assert(w.timer != nullptr, "O01: the task of a destroyed timer never runs");
  vf_assert(id == w.armed, "O01: only the most recently started task runs, at most once");
  vf_assert(id == w.allowed, "O01: a task runs when it is due or fired by hand");
  vf_assert(!w.timer->IsRunning(), "O01: the timer is not running when its task begins");
  w.armed = 0;
  w.allowed = 0;
  w.runs++;
  if (w.nested == 0) return;
  w.nested--;
  switch (vf_choose(5, "callback")) {
    case 0: break;
    case 1: start(w); vf_reach("restarted"); break;
    case 2: w.timer.reset(); vf_reach("destroyed"); break;
    case 3: start(w); fire(w); break;
    default: start(w); w.timer.reset(); w.armed = 0; break;
  }
  (void)depth;
}
void start(World& w) {
  if (w.armed) vf_reach("replaced");
  const uint64_t id = ++w.starts;
  int64_t delay = 0;
  if (!w.any) {
    delay = (int64_t)vf_range(0, uint64_t{1} << 61, "delay");
  }
  w.armed = id;
  w.due = w.now + delay;
  // big enough to be stored on the heap, and read back after the callback did its work
  struct Task {
    World* w;
    uint64_t id, check, a;
    void operator()() const { begun(*w, id, 0); vf_assert(check == ~id && a == id * 3, "O01: a running task stays alive"); }
  };
  w.timer->Start(Task{&w, id, ~id, id * 3}, nanoseconds(delay));
  vf_assert(w.timer->IsRunning(), "O01: a started timer is running");
}
void fire(World& w) {
  const uint64_t before = w.runs;
  w.allowed = w.armed;
  w.timer->FireNow();
  vf_assert(w.runs > before, "O01: firing by hand runs the task immediately");
}
void observe(World& w) {
  if (w.timer) vf_assert(w.timer->IsRunning() == (w.armed != 0), "O01: the timer is running exactly from a start until its task begins to run");
}
}  // namespace

// params: 0 steps, 1 callbacks that do something
VF_ENTRY(o01_poll) {
  const uint64_t heap = vf_heap_live();
  {
    World w;
    w.nested = vf_param(1, 2);
    w.now = (int64_t)vf_range(0, uint64_t{1} << 61, "now");
    rst::PollingTaskRunner runner([&w] { return nanoseconds(w.now); });
    w.runner = &runner;
    w.timer = std::make_unique<rst::OneShotTimer>([&w]() -> rst::TaskRunner& { return *w.runner; });
    for (uint64_t s = 0, e = vf_param(0, 3); s < e; s++) {
      switch (vf_choose(4, "step")) {
        case 0: if (!w.timer) vf_stop(); start(w); break;
        case 1: if (!w.timer || !w.armed) vf_stop(); fire(w); break;
        case 2: {
          const int64_t t = (int64_t)vf_range(0, uint64_t{1} << 62, "clock");
          vf_assume(t >= w.now);
          w.now = t;
          const bool expect = w.armed && w.due <= w.now;
          const uint64_t id = w.armed, before = w.runs;
          if (expect) w.allowed = id;
          runner.RunPendingTasks();
          w.allowed = 0;
          vf_assert(expect == (w.runs > before), "O01: a poll runs the armed task exactly when it is due");
          break;
        }
        default: if (!w.timer) vf_stop(); w.timer.reset(); w.armed = 0; vf_reach("destroyed"); break;
      }
      observe(w);
    }
    vf_observe("runs", w.runs);
  }
  vf_assert(vf_heap_live() == heap, "O01: nothing is leaked");
  vf_reach("o01");
}

VF_ENTRY(o01_any) {
  const uint64_t heap = vf_heap_live();
  {
    World w;
    w.any = true;
    w.nested = vf_param(1, 2);
    AnyRunner runner;
    w.runner = &runner;
    w.timer = std::make_unique<rst::OneShotTimer>([&w]() -> rst::TaskRunner& { return *w.runner; });
    std::vector<uint64_t> ids;
    for (uint64_t s = 0, e = vf_param(0, 3); s < e; s++) {
      switch (vf_choose(4, "step")) {
        case 0: if (!w.timer) vf_stop(); start(w); break;
        case 1: if (!w.timer || !w.armed) vf_stop(); fire(w); break;
        case 2: {
          if (runner.posted.empty()) vf_stop();
          const size_t i = vf_choose(runner.posted.size(), "which");   // the i-th start
          if (!runner.posted[i]) vf_stop();
          auto f = std::move(runner.posted[i]);
          runner.posted[i] = nullptr;
          const bool expect = w.armed && w.armed == i + 1;
          const uint64_t before = w.runs;
          if (expect) w.allowed = w.armed;
          f();
          w.allowed = 0;
          vf_assert(expect == (w.runs > before), "O01: only the most recently started task runs, at most once");
          break;
        }
        default: if (!w.timer) vf_stop(); w.timer.reset(); w.armed = 0; vf_reach("destroyed"); break;
      }
      observe(w);
    }
    vf_observe("runs", w.runs);
  }
  vf_assert(vf_heap_live() == heap, "O01: nothing is leaked");
  vf_reach("o01");
}

// Many starts one after the other: of all the posted tasks only the last one does anything.
VF_ENTRY(o01_many) {
  const uint64_t heap = vf_heap_live(), n = vf_param(0, 3);
  {
    World w;
    w.any = true;
    AnyRunner runner;
    w.runner = &runner;
    w.timer = std::make_unique<rst::OneShotTimer>([&w]() -> rst::TaskRunner& { return *w.runner; });
    for (uint64_t i = 0; i < n; i++) start(w);
    const uint64_t which = vf_choose(n, "which");
    w.allowed = which == n - 1 ? w.armed : 0;
    runner.posted[which]();
    vf_assert(w.runs == (which == n - 1), "O01: only the most recently started task runs, at most once");
    observe(w);
    w.allowed = w.armed;
    runner.posted[n - 1]();
    vf_assert(w.runs == 1, "O01: only the most recently started task runs, at most once");
    observe(w);
  }
  vf_assert(vf_heap_live() == heap, "O01: nothing is leaked");
  vf_reach("o01");
}

VF_ENTRY(o01_fire) {
  AnyRunner runner;
  rst::OneShotTimer t([&runner]() -> rst::TaskRunner& { return runner; });
  const uint64_t how = vf_choose(4, "how");
  if (how >= 1) t.Start([] {}, nanoseconds(0));
  if (how == 1) runner.posted[0]();
  if (how >= 2) t.FireNow();
  if (how == 3) runner.posted[0]();
  mustAbort("O01: firing a timer that is not running aborts", [&] { t.FireNow(); });
}
