// Lowered form of LLVM IR: flat instruction arrays over scalar "slots".
#pragma once
#include "expr.h"
#include <string>
#include <unordered_map>
#include <vector>

namespace llvm { class Function; class Module; class Type; class Value; class Instruction; class Constant; class DataLayout; class GlobalVariable; }

struct Val {
  u64 c = 0;
  E e = nullptr;  // symbolic (or any value wider than 64 bits)
};
#define UNDEF_MARK ((E)(uintptr_t)1)

typedef int32_t Opnd;  // >=0: slot, <0: constant pool index -(i+1)

enum IK : u8 {
  I_BIN, I_CMP, I_FCMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_FCAST, I_FNEG,
  I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE,
  I_RMW, I_CMPXCHG, I_FENCE, I_UNSUPPORTED
};

struct Leaf { unsigned w; u32 off; bool ptr; };
struct Inst {
  IK k;
  u8 sub = 0;      // operator / predicate / ordering
  uint16_t w = 0;  // operand width
  uint16_t w2 = 0; // result width for casts
  int32_t dst = -1;
  Opnd a = 0, b = 0, c = 0;
  u32 x = 0;       // index into a side table
  u32 line = 0;
  const char* file = nullptr;
};
struct Edge { u32 target; std::vector<std::pair<int32_t, Opnd>> copies; std::vector<uint16_t> widths; std::vector<u8> ptr; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct GepTerm { Opnd idx; unsigned w; s64 scale; };
struct GepInfo { s64 off; std::vector<GepTerm> terms; };
struct Fn;
struct Exec;
struct CallInfo;
enum BRes { B_DONE, B_BLOCK, B_FRAME };
typedef BRes (*Builtin)(Exec& X, CallInfo& ci, std::vector<Val>& args, std::vector<Val>& ret);
struct CallInfo {
  Opnd callee = 0;
  Fn* direct = nullptr;
  Builtin builtin = nullptr;
  std::string name;
  std::vector<Opnd> args;
  std::vector<uint16_t> argW;
  std::vector<std::pair<u32, u32>> byval;  // (arg slot index, size)
  std::vector<uint16_t> retW;
  bool noreturn = false;
};
struct AllocaInfo { u64 size; Opnd count; bool hasCount; };
struct Fn {
  std::string name;
  llvm::Function* f = nullptr;
  u32 id = 0;
  bool lowered = false;
  u32 nslots = 0;
  std::vector<uint16_t> paramW;
  std::vector<std::pair<u32, u32>> byvalParams;
  std::vector<Inst> code;
  std::vector<Val> pool;
  std::vector<Edge> edges;
  std::vector<SwitchInfo> switches;
  std::vector<GepInfo> geps;
  std::vector<CallInfo> calls;
  std::vector<AllocaInfo> allocas;
  std::vector<u32> rpo;      // per instruction: reverse post-order number of its block
  Builtin builtin = nullptr;
  u64 execCount = 0;
};

struct GlobalInit { u32 obj; llvm::GlobalVariable* gv; };

struct Program {
  llvm::Module* M = nullptr;
  const llvm::DataLayout* DL = nullptr;
  std::vector<Fn*> fns;                                   // index = function id
  std::unordered_map<const llvm::Function*, Fn*> fnOf;
  std::unordered_map<std::string, Fn*> fnByName;
  std::unordered_map<const llvm::Value*, u64> addrOf;     // globals and functions
  std::unordered_map<const llvm::GlobalVariable*, u32> tlsIndex;
  std::vector<llvm::GlobalVariable*> tlsVars;
};
extern Program P;
// Object ids: 0 null page; functions take ids starting at FN_BASE.
static const u32 FN_BASE = 0x10;

void loadProgram(const std::vector<std::string>& files);
void lowerFn(Fn* f);
void leaves(llvm::Type* t, std::vector<Leaf>& out, u32 off = 0);
u64 constAddr(const llvm::Constant* c, bool& ok);
std::vector<Val> constLeaves(const llvm::Constant* c);
