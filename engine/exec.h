#pragma once
#include "ir.h"
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <string>

enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP_NEW, OK_HEAP_NEWA, OK_HEAP_MALLOC, OK_TLS, OK_FREED };

struct SymB { E e; u8 idx; };
struct RaceRec { u32 wTid = ~0u, wClk = 0; u8 wMask = 0; u32 wSite = 0; u32 rClk[6] = {}; u8 rMask[6] = {}; u32 rSite[6] = {}; };
struct Obj {
  u32 rc = 1;
  u8 kind;
  bool ro = false;
  u32 size;
  u32 special = 0;         // bytes that are not plain concrete
  std::vector<u8> data;
  std::vector<u8> st;      // empty: all concrete. 0 concrete, 1 uninitialised, 2 symbolic
  std::vector<SymB> sym;
  std::unique_ptr<std::map<u32, RaceRec>> race;
  const char* name = "";
  u32 site = 0;            // allocation / free site
  u32 freeSite = 0;
  u8 freedKind = 0;
  Obj(u64 sz, u8 k) : kind(k), size((u32)sz), data(sz, 0) {}
  Obj(const Obj& o) : kind(o.kind), ro(o.ro), size(o.size), special(o.special), data(o.data), st(o.st), sym(o.sym),
                      name(o.name), site(o.site), freeSite(o.freeSite), freedKind(o.freedKind) {
    if (o.race) race = std::make_unique<std::map<u32, RaceRec>>(*o.race);
  }
};

struct Chunk { u32 rc = 1; Obj* o[64] = {}; };
struct MemTable {
  std::vector<Chunk*> ch;
  MemTable() {}
  MemTable(const MemTable& m) : ch(m.ch) { for (auto c : ch) if (c) c->rc++; }
  MemTable& operator=(const MemTable&) = delete;
  ~MemTable() { for (auto c : ch) if (c) drop(c); }
  static void drop(Chunk* c) {
    if (--c->rc) return;
    for (auto o : c->o) if (o && --o->rc == 0) delete o;
    delete c;
  }
  Obj* get(u32 id) const {
    u32 i = id >> 6;
    if (i >= ch.size() || !ch[i]) return nullptr;
    return ch[i]->o[id & 63];
  }
  Chunk* own(u32 i) {
    if (i >= ch.size()) ch.resize(i + 1, nullptr);
    if (!ch[i]) ch[i] = new Chunk();
    if (ch[i]->rc > 1) {
      Chunk* n = new Chunk();
      for (int k = 0; k < 64; k++) { n->o[k] = ch[i]->o[k]; if (n->o[k]) n->o[k]->rc++; }
      ch[i]->rc--;
      ch[i] = n;
    }
    return ch[i];
  }
  void put(u32 id, Obj* o) {
    Chunk* c = own(id >> 6);
    Obj*& p = c->o[id & 63];
    if (p && --p->rc == 0) delete p;
    p = o;
  }
  Obj* mut(u32 id) {
    Chunk* c = own(id >> 6);
    Obj*& p = c->o[id & 63];
    if (p->rc > 1) { Obj* n = new Obj(*p); p->rc--; p = n; }
    return p;
  }
};

struct Frame {
  Fn* fn;
  u32 ip = 0;
  std::vector<Val> regs;
  std::vector<u32> allocas;
  int32_t retDst = -1;
  u32 retN = 0;
};

enum TStatus : u8 { T_READY, T_WAIT_CV, T_JOIN, T_DONE };
enum Pending : u8 { PN_NONE, PN_LOCK, PN_OTHER, PN_START };
struct Thread {
  std::vector<Frame> frames;
  TStatus status = T_READY;
  u8 pend = PN_NONE;
  u64 pendAddr = 0;     // mutex for PN_LOCK
  u8 phase = 0;         // sub-step of the current builtin
  u64 cv = 0, mtx = 0;
  bool timed = false;
  Val deadline;         // ns
  bool timedOut = false;
  u32 joinTid = 0;
  bool detached = false, joined = false;
  u64 startArg = 0;
  std::vector<u32> vc;
  std::vector<u32> tls;  // object id per TLS variable (0: none)
  std::vector<std::pair<u64, u64>> dtors;  // (fn, obj)
  u64 lastLock = 0;
};

inline Val cv64(u64 c) { Val v; v.c = c; return v; }
struct Input { u8 kind; E e; u64 v; std::string name; };  // kind 0 value, 1 schedule
struct Observe { std::string name; std::vector<Val> bytes; unsigned w; };

struct State {
  u64 id = 0;
  std::vector<Thread> th;
  u32 cur = 0;
  MemTable mem;
  u32 nextObj = 0;
  std::vector<E> pc;
  Model model;
  u32 nsyms = 0;
  std::vector<Input> inputs;
  std::vector<Observe> obs;
  std::set<std::string> reached;
  u64 steps = 0;
  u32 depth = 0;
  bool expectTrap = false;
  std::string trapLabel;
  s64 heapLive = 0;
  bool armed = false;
  u8 needPick = 0;   // 1: choose again, 2: choose again, the current thread cannot go on
  int preempts = 0, timeouts = 0, spurious = 0;
  Val now = cv64(1000000000ULL);
  std::map<u64, std::vector<u32>> sync;   // sync object -> vector clock
  std::map<std::pair<u32, int>, std::vector<Val>> opaque;
  std::map<std::pair<u32, int>, E> undefs;
  std::vector<std::pair<u64, u64>> atexits;
  std::vector<std::string> trace;         // scheduling trace (readable)
  std::map<std::string, u64> cfg;
  bool raceOn = false;
  u64 decisions = 0;
  u32 picks = 0;
  std::vector<u64> schedPath;             // schedule points passed so far
};

struct PathEnd { int why; };  // 0 ok, 1 violation, 2 infeasible, 3 incomplete, 4 continues like an explored path
struct Violation {
  std::string kind, label, where;
  std::vector<std::string> stack, trace;
  std::vector<Input> inputs;
  Model model;
};

struct Exec {
  State* S = nullptr;
  std::vector<State*> work;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::set<std::string> known;
  std::vector<std::string> incompletes;
  std::set<std::string> reached;
  u64 paths = 0, trapPaths = 0, infeasible = 0, incomplete = 0, instrs = 0, forks = 0, asserts = 0, transitions = 0, violPaths = 0;
  std::map<std::string, u64> assertCount;
  std::vector<std::string> samples;
  std::vector<std::pair<u64, u64>> params;
  u64 nextStateId = 1;
  Fn* pendFn = nullptr;
  std::vector<Val> pendArgs;
  bool pendRet = false;
  CallInfo* curCall = nullptr;
  Inst* curInst = nullptr;
  // options
  u64 maxSteps = 20000000, maxPaths = ~0ull, maxViol = 3;
  double deadline = 0;
  u32 sampleMax = 20;
  u64 pathSeed = 1;
  bool stop = false;
  bool threadSwitched = false;

  // expressions
  E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  static Val fromE(E e) { Val v; if (isC(e) && e->width <= 64) v.c = (u64)e->val; else v.e = e; return v; }
  static Val cv(u64 c) { Val v; v.c = c; return v; }
  E freshSym(unsigned w, const char* name, u64 maxv = ~0ull);
  u64 evalV(const Val& v) { return v.e ? (u64)evalExpr(v.e, S->model) : v.c; }
  bool decide(E c);
  SatResult query(E extra, Model& m);
  void addPC(E c) { if (!isC(c)) S->pc.push_back(c); }
  u64 concretize(const Val& v, const char* what);
  State* clone();
  u64 chooseMulti(const std::vector<std::pair<std::string, std::function<void()>>>&);

  // memory
  u32 alloc(u64 size, u8 kind, const char* name);
  void freeObj(u32 id, u32 site);
  struct Loc { u32 id; u32 off; E offE; };
  Loc locate(const Val& addr, u64 n, bool write, const char* what);
  Val loadAt(u32 id, u32 off, unsigned w);
  void storeAt(u32 id, u32 off, const Val& v, unsigned w);
  Val load(const Val& addr, unsigned w);
  void store(const Val& addr, const Val& v, unsigned w);
  Val loadByte(u32 id, u32 off) { return loadAt(id, off, 8); }
  void copyBytes(u32 did, u32 doff, u32 sid, u32 soff, u32 n);
  std::string cstr(u64 addr);               // concrete C string
  std::vector<Val> cstrSym(u64 addr);       // bytes up to NUL, forking on symbolic bytes
  void raceAccess(u32 id, u32 off, u32 n, bool write, bool atomic);

  // control
  Val opv(Frame& f, Opnd o, unsigned w);
  void run(State* s);
  void step();
  void exec1(Frame& f, Inst& I);
  void stepCall(Frame& f, Inst& I);
  void pushFrame(Fn* fn, const std::vector<Val>& args, int32_t retDst, u32 retN);
  void doRet(const std::vector<Val>& vals);
  void edge(Frame& f, u32 e);
  bool region(Frame& f, Inst& I, Val cond);
  bool pureStep(Frame& f, Inst& I);
  u64 merges = 0;
  bool mergeOn = true;
  [[noreturn]] void violation(const std::string& kind, const std::string& label);
  void recordViolation(const std::string& kind, const std::string& label, const Model& m);
  [[noreturn]] void endPath(int why) { throw PathEnd{why}; }
  [[noreturn]] void incompletePath(const std::string& why);
  [[noreturn]] void trapped(const std::string& what, bool isUB);
  std::string where();
  u32 siteId();
  std::string siteStr(u32);
  void finishPath();
  void assertE(E c, const std::string& label);

  // threads
  u32 liveThreads();
  bool schedPoint(u8 kind, u64 addr);
  bool enabled(u32 t);
  void scheduleForced();
  void pick(bool forced);
  bool timeLe(const Val& a, const Val& b);   // decides a <= b
  bool seenState(bool forced);
  bool dedup = true;
  u64 merged = 0;
  void threadFinished();
  u64 mutexOwner(u64 addr);
  void setMutexOwner(u64 addr, u64 o);
  void vcJoin(std::vector<u32>& a, const std::vector<u32>& b);
  void acquireFrom(u64 addr);
  void releaseTo(u64 addr, bool merge);
  u64 cfg(const char* k, u64 def) { auto it = S->cfg.find(k); return it == S->cfg.end() ? def : it->second; }
  u32 spawn(Fn* fn, const std::vector<Val>& args);
};

void dedupInit();
extern u32 g_firstGlobal, g_nextObj;
extern std::vector<std::pair<u32, Obj*>> g_initialObjs;
Builtin findBuiltin(const std::string& name);
bool pureBuiltin(Builtin b);
void externalGlobal(Obj* o, const std::string& name);
Obj* makeTlsObj(u32 idx);
std::vector<Fn*> globalCtors();
std::string demangle(const std::string&);
