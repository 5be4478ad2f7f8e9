// Symbolic execution of LLVM IR: command line front end.
#include "exec.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
template <class C> static std::string arr(const C& c) {
  std::string o = "[";
  for (auto& x : c) { if (o.size() > 1) o += ","; o += esc(x); }
  return o + "]";
}

static void writeResult(Exec& X, const std::string& out, double t0, bool exhausted) {
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); exit(3); }
  fprintf(f, "{\"paths\":%llu,\"trap_paths\":%llu,\"infeasible\":%llu,\"incomplete\":%llu,\"viol_paths\":%llu,\"instrs\":%llu,\"forks\":%llu,\"asserts\":%llu,\"sched_points\":%llu,\"merged\":%llu,",
          (unsigned long long)X.paths, (unsigned long long)X.trapPaths, (unsigned long long)X.infeasible, (unsigned long long)X.incomplete, (unsigned long long)X.violPaths,
          (unsigned long long)X.instrs, (unsigned long long)X.forks, (unsigned long long)X.asserts, (unsigned long long)X.transitions, (unsigned long long)X.merged);
  fprintf(f, "\"exhausted\":%s,\"seconds\":%.3f,\"exprs\":%llu,", exhausted ? "true" : "false", nowS() - t0, (unsigned long long)exprCount());
  auto& s = g_solverStats;
  fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"trivial\":%llu,\"seconds\":%.4f,\"max_seconds\":%.4f},",
          (unsigned long long)s.queries, (unsigned long long)s.sat, (unsigned long long)s.unsat, (unsigned long long)s.unknown, (unsigned long long)s.cacheHits, (unsigned long long)s.trivial, s.seconds, s.maxSeconds);
  struct rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "\"max_rss_mb\":%ld,", ru.ru_maxrss / 1024);
  fprintf(f, "\"reached\":%s,", arr(X.reached).c_str());
  std::map<std::string, u64> inc;
  for (auto& i : X.incompletes) inc[i]++;
  fprintf(f, "\"incompletes\":{");
  bool first = true;
  int n = 0;
  for (auto& i : inc) { if (n++ > 30) break; fprintf(f, "%s%s:%llu", first ? "" : ",", esc(i.first).c_str(), (unsigned long long)i.second); first = false; }
  fprintf(f, "},\"assert_counts\":{");
  first = true;
  for (auto& i : X.assertCount) { fprintf(f, "%s%s:%llu", first ? "" : ",", esc(i.first).c_str(), (unsigned long long)i.second); first = false; }
  fprintf(f, "},\"functions\":{");
  first = true;
  for (auto* fn : P.fns)
    if (fn && fn->execCount) { fprintf(f, "%s%s:%llu", first ? "" : ",", esc(fn->name).c_str(), (unsigned long long)fn->execCount); first = false; }
  fprintf(f, "},\"samples\":%s,\"violations\":[", arr(X.samples).c_str());
  first = true;
  for (auto& v : X.viols) {
    fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"stack\":%s,\"trace\":%s,\"inputs\":[", first ? "" : ",", esc(v.kind).c_str(), esc(v.label).c_str(), esc(v.where).c_str(), arr(v.stack).c_str(), arr(v.trace).c_str());
    first = false;
    bool f2 = true;
    for (auto& in : v.inputs) {
      u64 x = in.e ? (u64)evalExpr(in.e, v.model) : in.v;
      fprintf(f, "%s[%d,\"%llx\",%s]", f2 ? "" : ",", in.kind, (unsigned long long)x, esc(in.name).c_str());
      f2 = false;
    }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  fclose(f);
}

int main(int argc, char** argv) {
  std::vector<std::string> files;
  std::string entry = "harness", out = "out.json";
  Exec X;
  int jobs = 1;
  double limit = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[i]; };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--param") { std::string s = nx(); auto p = s.find('='); X.params.push_back({strtoull(s.c_str(), nullptr, 0), strtoull(s.c_str() + p + 1, nullptr, 0)}); }
    else if (a == "--max-viol") X.maxViol = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--known") X.known.insert(nx());
    else if (a == "--time") limit = atof(nx().c_str());
    else if (a == "--steps") X.maxSteps = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--max-paths") X.maxPaths = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--samples") X.sampleMax = (u32)atoi(nx().c_str());
    else if (a == "--solver-timeout") g_solverTimeoutMs = (unsigned)atoi(nx().c_str());
    else if (a == "--no-dedup") X.dedup = false;
    else if (a == "--dump") g_dumpDir = nx();
    else if (a == "--seed") X.pathSeed = strtoull(nx().c_str(), nullptr, 0) * 2 + 1;
    else files.push_back(a);
  }
  double t0 = nowS();
  if (limit > 0) X.deadline = g_solverDeadline = t0 + limit;
  if (X.dedup) dedupInit();
  loadProgram(files);
  auto it = P.fnByName.find(entry);
  if (it == P.fnByName.end() || !it->second->f) { fprintf(stderr, "no entry function %s\n", entry.c_str()); return 3; }

  auto* s = new State();
  s->id = X.nextStateId++;
  s->nextObj = g_nextObj;
  for (auto& o : g_initialObjs) s->mem.put(o.first, o.second);
  s->th.emplace_back();
  s->th[0].vc = {1};
  X.S = s;
  X.pushFrame(it->second, {}, -1, 0);
  auto ctors = globalCtors();
  for (size_t i = ctors.size(); i-- > 0;) X.pushFrame(ctors[i], {}, -1, 0);
  X.work.push_back(s);

  bool exhausted = true;
  auto drain = [&](size_t untilStates) {
    while (!X.work.empty() && !X.stop && X.paths < X.maxPaths) {
      if (untilStates && X.work.size() >= untilStates) return;
      State* n;
      if (untilStates) { n = X.work.front(); X.work.erase(X.work.begin()); }
      else { n = X.work.back(); X.work.pop_back(); }
      X.run(n);
    }
    if (!X.work.empty()) exhausted = false;
  };
  if (jobs <= 1) {
    drain(0);
    writeResult(X, out, t0, exhausted && !X.stop);
    return 0;
  }
  drain((size_t)jobs * 12);
  if (X.stop || X.work.empty() || X.paths >= X.maxPaths) { writeResult(X, out, t0, X.work.empty() && !X.stop); return 0; }
  // Share the open states between child processes; each takes the next one when it is done with the previous.
  auto* next = (u32*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *next = 0;
  u32* stopAll = next + 16;
  *stopAll = 0;
  std::vector<State*> open = X.work;
  X.work.clear();
  writeResult(X, out, t0, true);
  std::vector<pid_t> kids;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      double tk = nowS();
      solverResetAfterFork();
      X.paths = X.trapPaths = X.infeasible = X.incomplete = X.instrs = X.forks = X.asserts = X.transitions = X.merged = X.violPaths = 0;
      X.viols.clear(); X.violKeys.clear(); X.incompletes.clear(); X.samples.clear(); X.assertCount.clear(); X.reached.clear();
      for (auto* fn : P.fns) if (fn) fn->execCount = 0;
      X.pathSeed = X.pathSeed * 31 + (u64)j;
      bool ex = true;
      while (!X.stop && !__atomic_load_n(stopAll, __ATOMIC_RELAXED)) {
        u32 k = __atomic_fetch_add(next, 1, __ATOMIC_RELAXED);
        if (k >= open.size()) break;
        X.work.push_back(open[k]);
        while (!X.work.empty() && !X.stop && !__atomic_load_n(stopAll, __ATOMIC_RELAXED)) {
          State* n = X.work.back();
          X.work.pop_back();
          X.run(n);
        }
      }
      if (X.stop) __atomic_store_n(stopAll, 1, __ATOMIC_RELAXED);
      if (X.stop || !X.work.empty() || __atomic_load_n(stopAll, __ATOMIC_RELAXED)) ex = false;
      writeResult(X, out + "." + std::to_string(j), tk, ex);
      _exit(0);
    }
    kids.push_back(p);
  }
  int rc = 0;
  for (pid_t p : kids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "engine: worker failed (status %x)\n", st); rc = 3; }
  }
  return rc;
}
