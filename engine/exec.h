// Symbolic interpreter for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sx {

struct Val {
  Expr* e = nullptr;  // symbolic when non-null
  u128 c = 0;
  bool sym() const { return e != nullptr; }
};

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OGlobal, OHeap, OStack };
struct Obj {
  u32 rc = 1;
  ObjKind kind;
  bool ro = false;
  bool freed = false;
  uint8_t akind = 0;  // 1 malloc, 2 new, 3 new[]
  u64 addr, size;
  uint8_t* data = nullptr;
  Expr** sym = nullptr;
  ~Obj() { free(data); free(sym); }
};
constexpr int kShift = 20;      // address bits per object id
constexpr int kFan = 64;
struct Node {
  u32 rc = 1;
  bool leaf;
  void* p[kFan] = {};
};
struct Mem {
  Node* root = nullptr;
  u32 nextId = 0x100;
  Mem();
  Mem(const Mem& o);
  ~Mem();
  Mem& operator=(const Mem&) = delete;
  Obj* find(u64 addr) const;       // may be null
  Obj* writable(Obj* o);           // copy on write
  Obj* alloc(u64 size, ObjKind k, uint8_t fill);
  void release(Obj* o);            // mark freed
  void drop(Obj* o);               // remove entry (stack)
  void put(u32 id, Obj* o);
};

// ---------------------------------------------------------------- code
struct FnInfo;
struct Opnd { int32_t s; };  // >=0 register slot; <0 constant pool ~s
enum IOp : uint8_t {
  IBin, ICmp, IFCmp, ISelect, ILoad, IStore, IGep, IAlloca, IBr, ICondBr, ISwitch, IRet, ICall, ICastZ, ICastS, ICastT, ICopy,
  IExtractVal, IInsertVal, IUnreachable, IFBin, IFUn, ICmpXchg, IRmw, IExtElt, IInsElt, IShuffle, INop, IUnsup
};
struct Edge { u32 target; u32 copyBegin, copyEnd; u32 block; };
struct PhiCopy { int32_t dst; Opnd src; u32 n; };
struct Leaf { unsigned w; u64 off; };
struct TyInfo { std::vector<Leaf> leaves; u64 size; };
struct Inst {
  IOp op; uint8_t sub = 0; uint16_t w = 0; uint16_t w2 = 0; uint16_t n = 1;
  int32_t dst = -1;
  Opnd a{0}, b{0}, c{0};
  u32 x = 0, y = 0;  // edges / misc
  int64_t off = 0;
  const TyInfo* ty = nullptr;
  FnInfo* callee = nullptr;
  int builtin = -1;
  std::vector<std::pair<Opnd, u64>> gep;
  std::vector<Opnd> args;
  std::vector<u32> argN;
  std::vector<u128> cases;
  std::vector<u32> idx;
  const llvm::Instruction* I = nullptr;
};
struct FnInfo {
  llvm::Function* F;
  bool built = false;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<PhiCopy> copies;
  std::vector<Val> pool;
  u32 nslots = 0;
  std::vector<u32> argSlot, argCnt;
  std::vector<bool> blockSeen;
  u64 calls = 0;
  std::string name;
};

struct Frame {
  u32 rc = 1;
  FnInfo* f;
  u32 pc = 0;
  int32_t retDst = -1;
  std::vector<Val> regs;
  std::vector<u64> allocas;
};
struct Stack { std::vector<Frame*> fr; };

struct Input { std::string name; Expr* e; u64 c; unsigned w; };

struct State {
  u64 id;
  Mem mem;
  std::vector<Stack> stacks;
  int cur = 0;
  std::vector<Expr*> pc;
  std::shared_ptr<Model> model;
  std::vector<Input> inputs;
  u64 steps = 0;
  u32 depth = 0;
  bool allowCrash = false;
  State() {}
  State(const State& o);
  ~State();
};

struct Violation {
  std::string kind, msg, loc;
  std::vector<std::string> trace;
  std::vector<std::string> inputs;  // "name width hex"
};

struct Options {
  std::string bc, out, entry = "vf_main";
  std::map<std::string, int64_t> params;
  double timeout = 600;
  u64 maxStepsPath = 50000000;
  u64 maxPaths = ~0ull;
  unsigned solverMs = 60000;
  bool preferInt = false;
  unsigned maxViolations = 1;
  std::string srcPrefix = "/repo/";
  bool verbose = false;
  std::vector<std::string> stopMsgs;
};

int runEngine(const Options& o);
}  // namespace sx
