// B01-B02: the barrier, under every interleaving within the bounds.
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <memory>
#include <thread>
#include <vector>
#include "rst/threading/barrier.h"
#include "vf.h"

namespace {
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
#ifdef NDEBUG
  (void)l; (void)f;
  vf_stop();  // a release build promises nothing here
#endif
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
}  // namespace

// params: 0 threads that count down, 1 threads that wait, 2 threads that do both, 3 preemptions, 4 spurious wakeups
VF_ENTRY(b01_mix) {
  vf_config("preempt", vf_param(3, 3));
  vf_config("spurious", vf_param(4, 0));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t down = vf_param(0, 1), wait = vf_param(1, 1), both = vf_param(2, 1), n = down + both;
  const uint64_t heap = vf_heap_live();
  {
    auto b = std::make_unique<rst::Barrier>(n);
    // |begun| counts the count-downs that have started: no wait may return before all of them have
    struct Shared { uint64_t begun = 0, released = 0; uint64_t data[4] = {}; } s;
    std::vector<std::thread> ts;
    auto before = [&s](uint64_t i) { s.data[i] = i + 1; vf_count(&s.begun, 1, 0); };
    auto after = [&s, n] {
      vf_assert(vf_count(&s.begun, 0, 0) == n, "B01: no wait returns before every count-down");
      for (uint64_t i = 0; i < n; i++) vf_assert(s.data[i] == i + 1, "B01: what was done before a count-down is visible after a wait");   // also a race check
      vf_count(&s.released, 1, 0);
    };
    for (uint64_t i = 0; i < down; i++) ts.emplace_back([&, i] { before(i); b->CountDown(); });
    for (uint64_t i = 0; i < both; i++) ts.emplace_back([&, i] { before(down + i); b->CountDownAndWait(); after(); });
    for (uint64_t i = 0; i < wait; i++) ts.emplace_back([&] { b->Wait(); after(); });
    if (vf_param(5, 0)) { b->Wait(); after(); }
    for (auto& t : ts) t.join();            // a lost wakeup is a deadlock here
    b->Wait();                              // future waiters return too
    after();
    vf_assert(s.released == both + wait + 1 + (vf_param(5, 0) ? 1 : 0), "B01: every waiter returns");
  }
  vf_assert(vf_heap_live() == heap, "B01: nothing is leaked");
  vf_reach("b01");
}

// Any initial count and any mix of styles: |n| is symbolic, so every decision the barrier takes on its count is the solver's.
// params: 0 threads that count down in either style, 1 threads that wait, 3 preemptions, 4 spurious wakeups
VF_ENTRY(b01_any) {
  vf_config("preempt", vf_param(3, 3));
  vf_config("spurious", vf_param(4, 0));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t counters = vf_param(0, 2), wait = vf_param(1, 1);
  const uint64_t extra = vf_range(0, 3, "extra");     // the main thread counts these down itself, before or after starting the others
  const uint64_t n = counters + extra;
  const bool early = vf_flip("early");
  const uint64_t styles = vf_choose(counters + 1, "styles");
  {
    rst::Barrier b(n);
    uint64_t begun = 0, released = 0;
    std::vector<std::thread> ts;
    auto count = [&] { for (uint64_t i = 0; i < extra; i++) { vf_count(&begun, 1, 0); b.CountDown(); } };
    auto after = [&] {
      vf_assert(vf_count(&begun, 0, 0) == n, "B01: no wait returns before every count-down");
      vf_count(&released, 1, 0);
    };
    if (early) count();
    for (uint64_t i = 0; i < counters; i++) {
      if (i < styles) ts.emplace_back([&] { vf_count(&begun, 1, 0); b.CountDown(); });
      else ts.emplace_back([&] { vf_count(&begun, 1, 0); b.CountDownAndWait(); after(); });
    }
    for (uint64_t i = 0; i < wait; i++) ts.emplace_back([&] { b.Wait(); after(); });
    if (!early) count();
    for (auto& t : ts) t.join();
    b.Wait();
    after();
    vf_assert(released == (counters - styles) + wait + 1, "B01: every waiter returns");
  }
  vf_reach("b01");
}

VF_ENTRY(b01_serial) {
  const uint64_t n = vf_range(1, 5, "n");
  rst::Barrier b(n);
  for (uint64_t i = 0; i < n; i++) {
    if (i + 1 == n && vf_flip("wait")) b.CountDownAndWait(); else b.CountDown();
  }
  b.Wait();
  b.Wait();
  vf_assert(n >= 1 && n <= 5, "B01: waiting on a finished barrier returns");   // reaching this is the point
  vf_reach("b01");
}

// Any 64-bit count: after fewer count-downs the waiters are still there.
VF_ENTRY(b01_huge) {
  vf_config("preempt", 2);
  vf_config("timeouts", 0);
  const uint64_t k = vf_choose(4, "k"), n = vf_sym(64, "n");
  vf_assume(n > k);
  static uint64_t released = 0;
  static std::mutex m;
  static std::condition_variable cv;
  const bool style = vf_flip("style") && k > 0;
  auto* b = new rst::Barrier(n);
  std::thread([b, style] { if (style) b->CountDownAndWait(); else b->Wait(); vf_count(&released, 1, 1); }).detach();
  for (uint64_t i = style; i < k; i++) b->CountDown();
  std::unique_lock<std::mutex> l(m);
  cv.wait_for(l, std::chrono::seconds(1));     // ends when nothing else can happen
  vf_assert(vf_count(&released, 0, 1) == 0, "B01: no wait returns before every count-down");
  vf_reach("b01");
}

VF_ENTRY(b01_misuse) {
  switch (vf_choose(4, "misuse")) {
    case 0: mustAbort("B01: a zero initial count aborts", [] { rst::Barrier b(0); });
    case 1: {
      const uint64_t n = 1 + vf_choose(3, "n");
      rst::Barrier b(n);
      for (uint64_t i = 0; i < n; i++) b.CountDown();
      if (vf_flip("wait")) mustAbort("B01: counting down below zero aborts", [&] { b.CountDownAndWait(); });
      mustAbort("B01: counting down below zero aborts", [&] { b.CountDown(); });
    }
    case 2: {
      const uint64_t n = vf_sym(64, "n"), k = vf_choose(4, "k");
      vf_assume(n > k);
      auto b = new rst::Barrier(n);
      for (uint64_t i = 0; i < k; i++) b->CountDown();
      mustAbort("B01: destroying an unfinished barrier aborts", [&] { delete b; });
    }
    default: {
      const uint64_t n = 1 + vf_choose(4, "n");
      { rst::Barrier b(n); for (uint64_t i = 0; i < n; i++) b.CountDown(); }
      vf_reach("fine");
    }
  }
}

// Destroyed by the last waiter while those who counted down may still be inside their call.
// params: 0 threads that count down, 1 waiting threads besides the destroying one, 2 their style
VF_ENTRY(b02_destroy) {
  vf_config("preempt", vf_param(3, 3));
  vf_config("spurious", vf_param(4, 0));
  vf_config("race", 1);
  vf_config("afterunlock", vf_param(7, 1));
  const uint64_t down = vf_param(0, 1), wait = vf_param(1, 0), both = vf_param(2, 0);
  const uint64_t heap = vf_heap_live();
  {
    auto b = new rst::Barrier(down + both);
    uint64_t left = wait + both + 1;
    std::vector<std::thread> ts;
    // the last thread whose wait has returned destroys the barrier
    auto done = [&left, b] { if (vf_count(&left, -1, 1) == 0) delete b; };
    for (uint64_t i = 0; i < down; i++) ts.emplace_back([b] { b->CountDown(); });
    for (uint64_t i = 0; i < both; i++) ts.emplace_back([b, done] { b->CountDownAndWait(); done(); });
    for (uint64_t i = 0; i < wait; i++) ts.emplace_back([b, done] { b->Wait(); done(); });
    b->Wait();
    done();
    for (auto& t : ts) t.join();
    vf_assert(vf_count(&left, 0, 1) == 0, "B02: every waiter returns");
  }
  vf_assert(vf_heap_live() == heap, "B02: nothing is leaked");
  vf_reach("b02");
}
