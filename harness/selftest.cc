#include <mutex>
#include <shared_mutex>
#include <thread>
#include <string>
#include <cctype>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <deque>
#include <queue>
#include <set>
#include <unordered_map>
#include <charconv>
#include <condition_variable>
#include <cmath>
#include <numeric>
#include <optional>
#include <variant>
#include <functional>
#include <list>
#include <array>
#include "vf.h"
VF_ENTRY(lib_all) {
  char b[32];
  *stpcpy(b, "abc") = 0;
  vf_assert(strstr("xxabc", b) && strspn("aab", "a") == 2, "1");
  vf_assert(std::stoi("-12") == -12 && std::to_string(-15) == "-15", "2");
  unsigned char c = (unsigned char)vf_sym(8, "c");
  vf_assert(!!isxdigit(c) == ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')), "3");
  vf_assert(std::tolower(c) == ((c >= 'A' && c <= 'Z') ? c + 32 : c), "3b");
  std::recursive_mutex m;
  { std::lock_guard l(m); std::lock_guard k(m); }
  std::shared_mutex s; int v = 0;
  std::once_flag f; int n = 0;
  std::thread t([&] { std::lock_guard l(m); std::call_once(f, [&] { n++; }); std::unique_lock w(s); v = 1; });
  { std::shared_lock r(s); vf_assert(v == 0 || v == 1, "4"); }
  std::call_once(f, [&] { n++; });
  t.join();
  vf_assert(n == 1 && v == 1, "5");
  std::deque<int> d{1, 2, 3}; d.push_front(0); d.pop_back();
  std::priority_queue<int, std::vector<int>, std::greater<>> q; q.push(3); q.push(1);
  std::set<std::string> ss{"b", "a"}; std::unordered_map<std::string, int> um{{"x", 1}};
  vf_assert(d.size() == 3 && q.top() == 1 && *ss.begin() == "a" && um.at("x") == 1, "6");
  int x = 0; std::string t2 = "42"; std::from_chars(t2.data(), t2.data() + 2, x); vf_assert(x == 42, "7");
  std::vector<int> w{3, 1, 2}; std::stable_sort(w.begin(), w.end()); vf_assert(w[0] == 1 && std::accumulate(w.begin(), w.end(), 0) == 6, "8");
  std::variant<int, std::string> va = "hi"; std::optional<int> oo = 3; vf_assert(std::get<std::string>(va) == "hi" && *oo == 3, "9");
  std::string z = "hello"; z.insert(1, "xy"); z.replace(0, 2, "Q"); z.erase(1, 1); z += 'c'; z.append(3, 'd');
  vf_assert(z == "Qellocddd" && z.find("loc") == 3 && z.rfind('d') == 8 && z.substr(1, 2) == "el" && z.compare("Q") > 0 && z.find_first_of("xl") == 2, "10");
  std::list<int> li{3, 1}; li.sort(); vf_assert(li.front() == 1, "11");
  double ip; vf_assert(std::modf(2.5, &ip) == 0.5 && ip == 2 && std::trunc(-2.5) == -2 && std::llround(2.5) == 3 && std::fmod(7.5, 2) == 1.5, "12");
  vf_reach("end");
}
