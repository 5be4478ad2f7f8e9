// L01-L02: the logger and its sinks.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <thread>
#include <utility>
#include <vector>
#include "../model/fs.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/logger/logger.h"
#include "rst/logger/sink.h"
#include "rst/rtti/rtti.h"
#include "vf.h"

namespace {
using Level = rst::Logger::Level;
template <class F> [[noreturn]] void mustAbort(const char* l, F f) {
  vf_reach("aborts");
  vf_expect_trap(l);
  f();
  vf_fail(l);
}
struct Want { bool fatal = false; uint64_t count = 0; const char* level = ""; const char* file = ""; int64_t line = 0; std::string_view text; };
Want g_want[2];
const char* kNames[] = {"?", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "?"};

// the record is exactly "[LEVEL:file(line)] text"
bool exact(std::string_view m, const Want& w) {
  const uint64_t nl = strlen(w.level), nf = strlen(w.file), fixed = 1 + nl + 1 + nf + 1 + 2 + 1 + w.text.size();
  if (m.size() <= fixed || m.size() > fixed + 10) return false;
  const uint64_t digits = m.size() - fixed;
  unsigned diff = 0;
  uint64_t at = 0;
  auto eat = [&](const char* p, uint64_t n) { for (uint64_t i = 0; i < n; i++) diff |= (unsigned char)m[at++] ^ (unsigned char)p[i]; };
  eat("[", 1); eat(w.level, nl); eat(":", 1); eat(w.file, nf); eat("(", 1);
  int64_t v = 0;
  bool ok = m[at] != '0';
  for (uint64_t i = 0; i < digits; i++) { const unsigned c = (unsigned char)m[at++] - '0'; ok &= c <= 9; v = v * 10 + c; }
  ok &= v == w.line;
  eat(")] ", 3);
  eat(w.text.data(), w.text.size());
  return ok & (diff == 0);
}
struct Recorder : rst::Sink {
  explicit Recorder(int i) : i(i) {}
  void Log(std::string_view m) override {
    auto& w = g_want[i];
    vf_assert(exact(m, w), "L01: the sink gets '[LEVEL:file(line)] message' exactly");
    w.count++;
    if (w.fatal) { vf_reach("fatal"); vf_expect_trap("L01: a fatal record aborts after it reached the sink"); }
  }
  const int i;
};
std::unique_ptr<rst::Sink> recorder(int i) { return std::make_unique<Recorder>(i); }
}  // namespace

// One record of every kind. params: 0 message bytes, 1 file name bytes, 2 the largest line, besides those near the largest int
VF_ENTRY(l01_log) {
  char text[32], file[32];
  const uint64_t n = vf_choose(vf_param(0, 3) + 1, "n"), nf = vf_choose(vf_param(1, 1) + 1, "nf");
  vf_sym_bytes(text, n, "text");
  vf_sym_bytes(file, nf, "file");
  for (uint64_t i = 0; i < nf; i++) vf_assume(file[i] != 0);
  file[nf] = 0;
  rst::Logger a(recorder(0));
  const int level = (int)vf_range(0, 6, "level"), sev = (int)vf_range(0, 6, "severity");
  const bool set = vf_flip("set");
  if (set) a.set_level(static_cast<Level>(level));
  rst::Logger::SetGlobalLogger(&a);
  int line;
  switch (vf_choose(3, "line")) {
    case 0: line = (int)vf_range(1, vf_param(2, 65535), "line"); break;
    case 1: line = 2147483647 - (int)vf_range(0, 60, "line"); break;
    default: line = (int)vf_sym(32, "line"); vf_assume(line <= 0);
  }
  auto log = [&] { rst::Logger::Log(static_cast<Level>(sev), file, line, std::string_view(text, n)); };
  if (line <= 0) mustAbort("L01: a line below 1 aborts", log);
  const bool on = !set || sev >= level;
  if (on && (sev == 0 || sev == 6)) mustAbort("L01: a record with an invalid severity aborts", log);
  const int s = (int)vf_concretize((uint64_t)sev);
  auto& w = g_want[0];
  w.fatal = s == 5; w.level = kNames[s]; w.file = file; w.line = line; w.text = std::string_view(text, n);
  log();
  vf_assert(w.count == (on ? 1 : 0), "L01: a record is passed on exactly when its severity is not below the level, once");
  vf_assert(!(on && s == 5), "L01: a fatal record that is emitted aborts");
  vf_reach("l01");
}
// Long messages and file names, lines of every length. params: 0 message bytes, 1 file name bytes
VF_ENTRY(l01_long) {
  const uint64_t n = vf_param(0, 5000), nf = vf_param(1, 300);
  std::string text(n, 'm'), file(nf, 'f');
  for (uint64_t i = 0; i < n; i++) text[i] = (char)(i * 7 + (i >> 8));
  vf_sym_bytes(text.data(), 2, "text");
  vf_sym_bytes(text.data() + n - 2, 2, "text");
  rst::Logger a(recorder(0));
  rst::Logger::SetGlobalLogger(&a);
  int line = 1;
  const uint64_t k = vf_choose(10 + 30, "line");
  if (k < 10) for (uint64_t i = 0; i < k; i++) line *= 10; else line <<= k - 9;
  if (vf_flip("less") && line > 1) line--;
  const int s = 1 + (int)vf_choose(4, "severity");
  auto& w = g_want[0];
  w.level = kNames[s]; w.file = file.c_str(); w.line = line; w.text = text;
  rst::Logger::Log(static_cast<Level>(s), file.c_str(), line, text);
  vf_assert(w.count == 1, "L01: a record is passed on exactly when its severity is not below the level, once");
  vf_reach("l01");
}
// Histories of level changes, logger changes and records. params: 0 steps
VF_ENTRY(l01_history) {
  rst::Logger a(recorder(0)), b(recorder(1));
  rst::Logger* logger[2] = {&a, &b};
  uint64_t cur = vf_choose(2, "first"), want[2] = {};
  int level[2] = {0, 0};
  rst::Logger::SetGlobalLogger(logger[cur]);
  for (uint64_t i = 0; i < vf_param(0, 3); i++) {
    switch (vf_choose(3, "step")) {
      case 0: cur = vf_choose(2, "logger"); rst::Logger::SetGlobalLogger(logger[cur]); break;
      case 1: { const uint64_t k = vf_choose(2, "logger"); level[k] = (int)vf_range(0, 6, "level"); logger[k]->set_level(static_cast<Level>(level[k])); break; }
      default: {
        const int s = 1 + (int)vf_choose(5, "severity");
        char text[2];
        vf_sym_bytes(text, 2, "text");
        for (auto& w : g_want) w.fatal = false;
        auto& w = g_want[cur];
        w.fatal = s == 5; w.level = kNames[s]; w.file = "f.cc"; w.line = 7; w.text = std::string_view(text, 2);
        rst::Logger::Log(static_cast<Level>(s), "f.cc", 7, std::string_view(text, 2));
        if (s >= level[cur]) want[cur]++;
        vf_assert(!(s == 5 && s >= level[cur]), "L01: a fatal record that is emitted aborts");
      }
    }
    vf_assert((g_want[0].count == want[0]) & (g_want[1].count == want[1]), "L01: every enabled record reaches the current logger's sink, once, and no other");
  }
  vf_reach("l01");
}
VF_ENTRY(l01_macros) {
  rst::Logger a(recorder(0));
  const int level = (int)vf_range(0, 6, "level");
  a.set_level(static_cast<Level>(level));
  rst::Logger::SetGlobalLogger(&a);
  char text[2];
  vf_sym_bytes(text, 2, "text");
  const std::string_view m(text, 2);
  const int s = 1 + (int)vf_choose(5, "severity");
  const bool dbg = vf_flip("dlog");
  uint64_t evaluated = 0;
  auto once = [&] { evaluated++; return m; };
  auto& w = g_want[0];
  w.fatal = s == 5; w.level = kNames[s]; w.file = __FILE__; w.text = m;
  switch (s + (dbg ? 10 : 0)) {
    case 1: w.line = __LINE__; RST_LOG_DEBUG(once()); break;
    case 2: w.line = __LINE__; RST_LOG_INFO(once()); break;
    case 3: w.line = __LINE__; RST_LOG_WARNING(once()); break;
    case 4: w.line = __LINE__; RST_LOG_ERROR(once()); break;
    case 5: w.line = __LINE__; RST_LOG_FATAL(once()); break;
    case 11: w.line = __LINE__; RST_DLOG_DEBUG(once()); break;
    case 12: w.line = __LINE__; RST_DLOG_INFO(once()); break;
    case 13: w.line = __LINE__; RST_DLOG_WARNING(once()); break;
    case 14: w.line = __LINE__; RST_DLOG_ERROR(once()); break;
    case 15: w.line = __LINE__; RST_DLOG_FATAL(once()); break;
  }
#ifdef NDEBUG
  const bool there = !dbg;
#else
  const bool there = true;
#endif
  vf_assert(evaluated == (there ? 1 : 0), "L01: a logging macro evaluates its message once, a debug one only in debug builds");
  vf_assert(w.count == (there && s >= level ? 1 : 0), "L01: a record is passed on exactly when its severity is not below the level, once");
  vf_assert(!(there && s == 5 && s >= level), "L01: a fatal record that is emitted aborts");
  vf_reach("l01");
}

// ---------------------------------------------------------------- sinks
namespace {
constexpr const char* kFile = "d/log";
bool fileIs(const std::string& want) {
  if (fs_size(kFile) != want.size()) return false;
  const unsigned char* d = fs_data(kFile);
  unsigned diff = 0;
  for (uint64_t i = 0; i < want.size(); i++) diff |= d[i] ^ (unsigned char)want[i];
  return diff == 0;
}
std::unique_ptr<rst::Sink> makeSink(uint64_t kind, std::FILE** f) {
  if (kind == 0) {
    auto r = rst::FileNameSink::Create(kFile);
    vf_assert(!r.err(), "L02: a sink can be created when nothing fails");
    return std::move(*r).Take();
  }
  *f = std::fopen(kFile, "w");
  if (kind == 1) return std::make_unique<rst::FilePtrSink>(*f);
  return std::make_unique<rst::FilePtrSink>(*f, rst::FilePtrSink::ShouldClose(kind == 2));
}
}  // namespace

// Every message whole, in order, one line each, in the file when the call returns. params: 0 messages, 1 bytes at most
VF_ENTRY(l02_lines) {
  if (vf_flip("old")) fs_put(kFile, "earlier\n", 8); else fs_put(kFile, "", 0);
  fs_put("d/log2", "x", 1);
  fs_lazy = 2;
  const uint64_t kind = vf_choose(4, "sink"), heap = vf_heap_live();
  std::FILE* f = nullptr;
  {
    auto sink = makeSink(kind, &f);
    vf_assert(fs_size(kFile) == 0 && fs_streams() == 1, "L02: a new log is empty and open");
    std::string want;
    for (uint64_t i = 0; i < vf_param(0, 2); i++) {
      char b[64];
      const uint64_t n = vf_choose(vf_param(1, 3) + 1, "n");
      vf_sym_bytes(b, n, "message");
      sink->Log(std::string_view(b, n));
      want.append(b, n);
      want += '\n';
      vf_assert(fileIs(want), "L02: the file holds every message whole and in order, one line each, when the call returns");
    }
  }
  if (kind == 3) {
    vf_assert(fs_streams() == 1, "L02: a file that is not to be closed stays open");
    std::fclose(f);
  }
  vf_assert(fs_streams() == 0, "L02: the file is closed with the sink");
  vf_assert(fs_files() == 2 && fs_size("d/log2") == 1, "L02: no other file is touched");
  vf_assert(vf_heap_live() == heap, "L02: nothing is leaked");
  vf_reach("l02");
}
// Long messages. params: 0 messages, 1 bytes
VF_ENTRY(l02_big) {
  std::FILE* f = nullptr;
  const uint64_t kind = vf_choose(3, "sink");
  fs_lazy = vf_choose(2, "lazy");
  auto sink = makeSink(kind, &f);
  std::string want;
  for (uint64_t i = 0; i < vf_param(0, 2); i++) {
    std::string m(vf_param(1, 5000) + i, 0);
    for (uint64_t j = 0; j < m.size(); j++) m[j] = (char)(j * 7 + (j >> 8) + i);
    vf_sym_bytes(m.data(), 1, "first");
    vf_sym_bytes(m.data() + m.size() - 1, 1, "last");
    sink->Log(m);
    want += m;
    want += '\n';
    vf_assert(fileIs(want), "L02: the file holds every message whole and in order, one line each, when the call returns");
  }
  vf_reach("l02");
}
// A message that cannot be written is not lost silently. params: 0 messages
VF_ENTRY(l02_fault) {
  const uint64_t kind = vf_choose(3, "sink");
  std::FILE* f = nullptr;
  auto sink = makeSink(kind, &f);
  fs_lazy = 2;
  fs_faults = 1;
  fs_on_fail = [](uint64_t) { vf_reach("aborts"); vf_expect_trap("L02: a message that cannot be written aborts"); };
  for (uint64_t i = 0; i < vf_param(0, 2); i++) {
    char b[2];
    vf_sym_bytes(b, 2, "message");
    sink->Log(std::string_view(b, vf_choose(3, "n")));
    vf_assert(!fs_failed, "L02: a message that cannot be written aborts");
  }
  fs_on_fail = nullptr;
  vf_reach("l02");
}
VF_ENTRY(l02_open) {
  fs_faults = 1;
  const uint64_t heap = vf_heap_live(), before = fs_files();
  {
    auto r = rst::FileNameSink::Create(kFile);
    const bool err = r.err();
    vf_assert(err == (fs_failed != 0), "L02: creating a sink fails exactly when the file cannot be opened");
    if (err) {
      const rst::ErrorInfoBase* e = r.status().GetError().get();
      vf_assert(rst::dyn_cast<rst::LogError>(e) != nullptr, "L02: a failure is a log error");
      vf_assert(e->AsString().find(kFile) != std::string::npos, "L02: the error names the file");
      vf_reach("failed");
    } else vf_reach("opened");
    fs_faults = 0;
  }
  vf_assert(fs_streams() == 0, "L02: the file is closed with the sink");
  vf_assert(vf_heap_live() == heap + fs_files() - before, "L02: nothing is leaked");
}
// Several threads. params: 0 threads, 1 messages each, 2 preemptions, 3 sink
VF_ENTRY(l02_threads) {
  vf_config("preempt", vf_param(2, 99));
  vf_config("race", 1);
  const uint64_t threads = vf_param(0, 2), each = vf_param(1, 2);
  std::FILE* f = nullptr;
  auto sink = makeSink(vf_param(3, 0), &f);
  fs_lazy = 1;
  fs_yield = 1;
  static const char* kMsg[3][3] = {{"a", "bc", "de"}, {"1", "23", "45"}, {"x", "yz", "uv"}};
  auto work = [&](uint64_t t) {
    for (uint64_t i = 0; i < each; i++) {
      sink->Log(kMsg[t][i]);
      vf_config("race", 0);
      const std::string all((const char*)fs_data(kFile), fs_size(kFile));
      vf_config("race", 1);
      vf_assert(all.find(std::string(kMsg[t][i]) + "\n") != std::string::npos, "L02: a message has reached the file when the call returns");
    }
  };
  std::vector<std::thread> ts;
  for (uint64_t t = 1; t < threads; t++) ts.emplace_back(work, t);
  work(0);
  for (auto& t : ts) t.join();
  fs_yield = 0;
  sink.reset();
  const std::string all((const char*)fs_data(kFile), fs_size(kFile));
  uint64_t next[3] = {}, lines = 0;
  size_t at = 0;
  while (at < all.size()) {
    const size_t e = all.find('\n', at);
    vf_assert(e != std::string::npos, "L02: lines are never interleaved or lost");
    const std::string line = all.substr(at, e - at);
    bool known = false;
    for (uint64_t t = 0; t < threads; t++)
      if (next[t] < each && line == kMsg[t][next[t]]) { next[t]++; known = true; }
    vf_assert(known, "L02: lines are never interleaved, lost, repeated or reordered");
    at = e + 1;
    lines++;
  }
  vf_assert(lines == threads * each, "L02: lines are never interleaved or lost");
  vf_assert(fs_streams() == 0, "L02: the file is closed with the sink");
  vf_reach("l02");
}
