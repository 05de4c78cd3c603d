#include "exec.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
namespace sx {
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string sfmt(const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ================================================================ memory
static void decNode(Node* n, int lvl);
static void decObj(Obj* o) { if (o && --o->rc == 0) delete o; }
static void decNode(Node* n, int lvl) {
  if (!n || --n->rc) return;
  for (int i = 0; i < kFan; i++) if (n->p[i]) { if (n->leaf) decObj((Obj*)n->p[i]); else decNode((Node*)n->p[i], lvl - 1); }
  delete n;
}
static Node* cloneNode(Node* n) {
  Node* r = new Node; r->leaf = n->leaf; memcpy(r->p, n->p, sizeof n->p);
  for (int i = 0; i < kFan; i++) if (r->p[i]) { if (r->leaf) ((Obj*)r->p[i])->rc++; else ((Node*)r->p[i])->rc++; }
  return r;
}
Mem::Mem() { root = new Node; root->leaf = false; }
Mem::Mem(const Mem& o) : root(o.root), nextId(o.nextId) { root->rc++; }
Mem::~Mem() { decNode(root, 3); }
Obj* Mem::find(u64 addr) const {
  u64 id = addr >> kShift;
  if (id >> 24) return nullptr;
  Node* n = (Node*)root->p[(id >> 18) & 63]; if (!n) return nullptr;
  n = (Node*)n->p[(id >> 12) & 63]; if (!n) return nullptr;
  n = (Node*)n->p[(id >> 6) & 63]; if (!n) return nullptr;
  return (Obj*)n->p[id & 63];
}
void Mem::put(u32 id, Obj* o) {
  if (root->rc > 1) { root->rc--; root = cloneNode(root); }
  Node* n = root;
  for (int sh = 18; sh > 0; sh -= 6) {
    void*& slot = n->p[(id >> sh) & 63];
    if (!slot) { Node* m = new Node; m->leaf = sh == 6; slot = m; }
    Node* m = (Node*)slot;
    if (m->rc > 1) { m->rc--; m = cloneNode(m); slot = m; }
    n = m;
  }
  void*& s = n->p[id & 63];
  if (s == (void*)o) return;
  if (o) o->rc++;
  decObj((Obj*)s);
  s = o;
}
Obj* Mem::writable(Obj* o) {
  u32 id = o->addr >> kShift;
  // ensure path unique; cloning nodes bumps object refcounts
  if (root->rc > 1) { root->rc--; root = cloneNode(root); }
  Node* n = root;
  for (int sh = 18; sh > 0; sh -= 6) {
    void*& slot = n->p[(id >> sh) & 63]; Node* m = (Node*)slot;
    if (m->rc > 1) { m->rc--; m = cloneNode(m); slot = m; }
    n = m;
  }
  u64 span = (o->size + 64) >> kShift;
  if (o->rc == 1 + span) return o;
  Obj* c = new Obj; c->kind = o->kind; c->ro = o->ro; c->freed = o->freed; c->akind = o->akind; c->addr = o->addr; c->size = o->size;
  c->data = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(c->data, o->data, o->size);
  if (o->sym) { c->sym = (Expr**)malloc(sizeof(Expr*) * o->size); memcpy(c->sym, o->sym, sizeof(Expr*) * o->size); }
  c->rc = 0;
  for (u64 i = 0; i <= span; i++) put(id + i, c);
  return c;
}
Obj* Mem::alloc(u64 size, ObjKind k, uint8_t fill) {
  Obj* o = new Obj; o->kind = k; o->size = size; o->addr = (u64)nextId << kShift; o->rc = 0;
  u64 span = (size + 64) >> kShift;
  o->data = (uint8_t*)malloc(size ? size : 1); memset(o->data, fill, size);
  for (u64 i = 0; i <= span; i++) put(nextId + i, o);
  nextId += 1 + span;
  return o;
}
void Mem::release(Obj* o) { o = writable(o); o->freed = true; free(o->data); o->data = (uint8_t*)calloc(1, o->size ? o->size : 1); free(o->sym); o->sym = nullptr; }
void Mem::drop(Obj* o) { u64 span = (o->size + 64) >> kShift; u32 id = o->addr >> kShift; for (u64 i = 0; i <= span; i++) put(id + i, nullptr); }

static u64 g_stateId = 0;
State::State(const State& o) : mem(o.mem), cur(o.cur), pc(o.pc), model(o.model), inputs(o.inputs), steps(o.steps), depth(o.depth), allowCrash(o.allowCrash) {
  id = ++g_stateId;
  stacks.resize(o.stacks.size());
  for (size_t i = 0; i < o.stacks.size(); i++) {
    stacks[i].fr = o.stacks[i].fr;
    size_t n = stacks[i].fr.size();
    for (size_t j = 0; j < n; j++) {
      if (j + 1 == n) { Frame* c = new Frame(*stacks[i].fr[j]); c->rc = 1; stacks[i].fr[j] = c; }
      else stacks[i].fr[j]->rc++;
    }
  }
}
State::~State() { for (auto& s : stacks) for (Frame* f : s.fr) if (--f->rc == 0) delete f; }

// ================================================================ executor
enum BI {
  B_NONE = -1, B_NOP = 0, B_ASSERT, B_ASSUME, B_U8, B_U16, B_U32, B_U64, B_BYTES, B_CHOICE, B_PARAM, B_REACH, B_FAIL, B_ALLOWCRASH, B_CONC,
  B_COCREATE, B_COSWITCH, B_COSELF, B_LOG, B_LOGS, B_SYMBOLIC, B_END, B_ISSYM, B_UNIQUE, B_ITE, B_MALLOC, B_CALLOC, B_REALLOC, B_NEW, B_NEWA, B_FREE, B_DEL, B_DELA, B_MEMCPY, B_MEMSET, B_MEMCMP,
  B_BCMP, B_ABORT, B_GUARDACQ, B_RET0, B_RET1, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_BITREV, B_FSHL, B_FSHR, B_UADDO, B_SADDO, B_USUBO, B_SSUBO, B_UMULO, B_SMULO,
  B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_UADDSAT, B_USUBSAT, B_SADDSAT, B_SSUBSAT, B_OBJSIZE, B_FABS, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_SQRT, B_FMULADD, B_RETARG, B_TRAP,
  B_LIBM1, B_LIBM2, B_ISCONST, B_FMIN, B_FMAX, B_USUBCMP, B_COPYSIGN, B_FSHLC, B_FPTOSISAT, B_FPTOUISAT, B_RINT, B_LDEXP, B_TLS, B_EXPECT, B_MAXPATH, B_REPORT, B_PTRVALID, B_ASAN_POISON
};

struct Exec {
  const Options& opt;
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  std::unique_ptr<DataLayout> DL;
  Solver solver;
  std::unordered_map<Function*, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<u64, Function*> fnByAddr;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::unordered_map<Type*, std::unique_ptr<TyInfo>> tys;
  std::vector<State*> work;
  State* S = nullptr;
  double tStart;
  u64 steps = 0, paths = 0, forks = 0, maxDepth = 0, endedQuiet = 0, assumedOut = 0, assertChecks = 0, assertProved = 0, assertConcrete = 0, ubChecks = 0;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::map<std::string, u64> reach;
  std::map<std::string, u64> assertMsgs;
  std::map<std::string, u64> incompletes;
  std::map<std::string, u64> allowedCrash;
  std::vector<std::string> sampleInputs;
  bool stopAll = false;
  std::unordered_map<std::string, int> bi;

  Exec(const Options& o) : opt(o) { initBI(); }

  void initBI() {
    auto& m = bi;
    m["vf_assert"] = B_ASSERT; m["vf_assume"] = B_ASSUME; m["vf_u8"] = B_U8; m["vf_u16"] = B_U16; m["vf_u32"] = B_U32; m["vf_u64"] = B_U64;
    m["vf_bytes"] = B_BYTES; m["vf_choice"] = B_CHOICE; m["vf_param"] = B_PARAM; m["vf_reach"] = B_REACH; m["vf_fail"] = B_FAIL; m["vf_allow_crash"] = B_ALLOWCRASH;
    m["vf_concretize"] = B_CONC; m["vf_co_create"] = B_COCREATE; m["vf_co_switch"] = B_COSWITCH; m["vf_co_self"] = B_COSELF; m["vf_log"] = B_LOG; m["vf_logs"] = B_LOGS; m["vf_symbolic"] = B_SYMBOLIC;
    m["vf_end"] = B_END; m["vf_is_sym"] = B_ISSYM; m["vf_unique"] = B_UNIQUE; m["vf_ite"] = B_ITE; m["vf_ptr_valid"] = B_PTRVALID;
    m["malloc"] = B_MALLOC; m["calloc"] = B_CALLOC; m["realloc"] = B_REALLOC; m["free"] = B_FREE;
    for (auto s : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) m[s] = B_NEW;
    for (auto s : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) m[s] = B_NEWA;
    for (auto s : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) m[s] = B_DEL;
    for (auto s : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) m[s] = B_DELA;
    m["memcpy"] = m["memmove"] = B_MEMCPY; m["memset"] = B_MEMSET; m["memcmp"] = B_MEMCMP; m["bcmp"] = B_BCMP;
    for (auto s : {"abort", "exit", "_exit", "quick_exit", "__assert_fail", "__cxa_pure_virtual", "__cxa_deleted_virtual", "_ZSt9terminatev", "__stack_chk_fail", "__cxa_throw_bad_array_new_length"}) m[s] = B_ABORT;
    m["__cxa_guard_acquire"] = B_GUARDACQ; m["__cxa_guard_release"] = B_NOP; m["__cxa_atexit"] = B_RET0; m["atexit"] = B_RET0; m["__cxa_thread_atexit"] = B_RET0;
    m["floor"] = B_FLOOR; m["ceil"] = B_CEIL; m["trunc"] = B_TRUNC; m["round"] = B_ROUND; m["sqrt"] = B_SQRT; m["fabs"] = B_FABS;
    for (auto s : {"exp", "log", "log2", "log10", "lgamma", "expm1", "log1p", "exp2", "cbrt", "sin", "cos", "tan", "nearbyint"}) m[s] = B_LIBM1;
    for (auto s : {"pow", "fmod", "atan2", "hypot"}) m[s] = B_LIBM2;
  }
  int intrinsicBI(StringRef n) {
    struct P { const char* p; int b; };
    static const P ps[] = {
      {"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMCPY}, {"llvm.memset", B_MEMSET}, {"llvm.ctpop", B_CTPOP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.bswap", B_BSWAP}, {"llvm.bitreverse", B_BITREV},
      {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR}, {"llvm.uadd.with", B_UADDO}, {"llvm.sadd.with", B_SADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.smul.with", B_SMULO},
      {"llvm.umin", B_UMIN}, {"llvm.umax", B_UMAX}, {"llvm.smin", B_SMIN}, {"llvm.smax", B_SMAX}, {"llvm.abs", B_ABS}, {"llvm.uadd.sat", B_UADDSAT}, {"llvm.usub.sat", B_USUBSAT}, {"llvm.sadd.sat", B_SADDSAT}, {"llvm.ssub.sat", B_SSUBSAT},
      {"llvm.objectsize", B_OBJSIZE}, {"llvm.fabs", B_FABS}, {"llvm.floor", B_FLOOR}, {"llvm.ceil", B_CEIL}, {"llvm.trunc", B_TRUNC}, {"llvm.round", B_ROUND}, {"llvm.sqrt", B_SQRT}, {"llvm.fmuladd", B_FMULADD}, {"llvm.fma", B_FMULADD},
      {"llvm.expect", B_RETARG}, {"llvm.launder", B_RETARG}, {"llvm.strip", B_RETARG}, {"llvm.ssa.copy", B_RETARG}, {"llvm.threadlocal", B_RETARG}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.debugtrap", B_TRAP}, {"llvm.is.constant", B_ISCONST},
      {"llvm.minnum", B_FMIN}, {"llvm.maxnum", B_FMAX}, {"llvm.copysign", B_COPYSIGN}, {"llvm.fptosi.sat", B_FPTOSISAT}, {"llvm.fptoui.sat", B_FPTOUISAT}, {"llvm.rint", B_RINT}, {"llvm.nearbyint", B_RINT},
      {"llvm.stacksave", B_RET0}, {"llvm.exp.", B_LIBM1}, {"llvm.exp2.", B_LIBM1}, {"llvm.log.", B_LIBM1}, {"llvm.log2.", B_LIBM1}, {"llvm.pow.", B_LIBM2},
      {"llvm.assume", B_NOP}, {"llvm.lifetime", B_NOP}, {"llvm.dbg", B_NOP}, {"llvm.experimental.noalias", B_NOP}, {"llvm.invariant", B_NOP}, {"llvm.stackrestore", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.prefetch", B_NOP}, {"llvm.sideeffect", B_NOP}, {"llvm.pseudoprobe", B_NOP}, {"llvm.var.annotation", B_NOP},
    };
    for (auto& p : ps) if (n.startswith(p.p)) return p.b;
    return B_NONE;
  }

  // ---------------------------------------------------------------- types
  void flat(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(at->getElementType());
      for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u64 eb = DL->getTypeSizeInBits(vt->getElementType());
      for (u64 i = 0; i < vt->getNumElements(); i++) { Leaf l; l.w = eb; l.off = off + i * ((eb + 7) / 8); out.push_back(l); }
    } else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {
    } else { Leaf l; l.w = DL->getTypeSizeInBits(t); l.off = off; out.push_back(l); }
  }
  const TyInfo* ty(Type* t) {
    auto& p = tys[t];
    if (!p) { p.reset(new TyInfo); flat(t, 0, p->leaves); p->size = (t->isSized()) ? (u64)DL->getTypeStoreSize(t) : 0; }
    return p.get();
  }

  // ---------------------------------------------------------------- constants
  u64 addrOf(const GlobalValue* g) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) { Val v; std::vector<Val> o; evalConst(const_cast<Constant*>(cast<Constant>(a->getAliasee())), o); return (u64)o[0].c; }
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); exit(3);
  }
  void evalConst(Constant* c, std::vector<Val>& out) {
    auto push = [&](u128 v) { Val x; x.c = v; out.push_back(x); };
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      const APInt& v = ci->getValue();
      if (v.getBitWidth() > 128) { fprintf(stderr, "wide constant\n"); push(0); return; }
      u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; push(r); return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; push(r); return; }
    if (isa<ConstantPointerNull>(c)) { push(0); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < ty(c->getType())->leaves.size(); i++) push(0); return; }
    if (auto* f = dyn_cast<Function>(c)) { if (f->hasExternalWeakLinkage() && f->isDeclaration()) push(0); else push(addrOf(f)); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { push(addrOf(g)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(cast<Constant>(ca->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      std::vector<Val> o;
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
          if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep const\n"); exit(3); }
          evalConst(cast<Constant>(g->getPointerOperand()), o); push((u64)((u64)o[0].c + off.getSExtValue())); return;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::ZExt:
          evalConst(cast<Constant>(ce->getOperand(0)), o); push(o[0].c & maskw(DL->getTypeSizeInBits(ce->getType()))); return;
        case Instruction::Trunc: evalConst(cast<Constant>(ce->getOperand(0)), o); push(o[0].c & maskw(DL->getTypeSizeInBits(ce->getType()))); return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: {
          evalConst(cast<Constant>(ce->getOperand(0)), o); evalConst(cast<Constant>(ce->getOperand(1)), o);
          unsigned w = DL->getTypeSizeInBits(ce->getType()); Op op = ADD;
          switch (ce->getOpcode()) { case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break; case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break; case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; default: break; }
          push(foldOp(op, w, o[0].c, w, o[1].c, w, 0, 0)); return;
        }
        case Instruction::ICmp: {
          evalConst(cast<Constant>(ce->getOperand(0)), o); evalConst(cast<Constant>(ce->getOperand(1)), o);
          unsigned w = DL->getTypeSizeInBits(ce->getOperand(0)->getType());
          bool r = false; u128 a = o[0].c, b = o[1].c; i128 sa = sextv(a, w), sb = sextv(b, w);
          switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; case CmpInst::ICMP_SGT: r = sa > sb; break; default: r = sa >= sb; }
          push(r); return;
        }
        default: break;
      }
      std::string s; raw_string_ostream os(s); ce->print(os); fprintf(stderr, "unsupported constexpr %s\n", s.c_str()); exit(3);
    }
    if (auto* bc = dyn_cast<DSOLocalEquivalent>(c)) { evalConst(bc->getGlobalValue(), out); return; }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); exit(3);
  }
  void initMem(Constant* c, uint8_t* d, u64 cap) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(d, r.data(), std::min<u64>(r.size(), cap)); return; }
    Type* t = c->getType();
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(cs->getOperand(i), d + sl->getElementOffset(i), cap - sl->getElementOffset(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(ca->getOperand(i), d + i * es, cap - i * es); return; }
    std::vector<Val> o; evalConst(c, o); auto* ti = ty(t);
    for (size_t i = 0; i < o.size(); i++) { u64 nb = (ti->leaves[i].w + 7) / 8; u128 v = o[i].c; for (u64 j = 0; j < nb; j++) d[ti->leaves[i].off + j] = (uint8_t)(v >> (8 * j)); }
  }

  // ---------------------------------------------------------------- function decoding
  FnInfo* fn(Function* F) {
    auto& p = fns[F]; if (!p) { p.reset(new FnInfo); p->F = F; p->name = F->getName().str(); }
    return p.get();
  }
  void build(FnInfo* fi) {
    Function* F = fi->F; fi->built = true;
    std::unordered_map<const Value*, u32> slot; u32 n = 0;
    auto cnt = [&](Type* t) { return (u32)ty(t)->leaves.size(); };
    for (auto& a : F->args()) { slot[&a] = n; fi->argSlot.push_back(n); u32 k = cnt(a.getType()); fi->argCnt.push_back(k); n += k; }
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += cnt(i.getType()); }
    fi->nslots = n;
    std::unordered_map<const Value*, int32_t> cp;
    auto opnd = [&](const Value* v) -> Opnd {
      auto it = slot.find(v); if (it != slot.end()) return Opnd{(int32_t)it->second};
      auto jt = cp.find(v); if (jt != cp.end()) return Opnd{jt->second};
      int32_t at = ~(int32_t)fi->pool.size();
      if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> o; evalConst(const_cast<Constant*>(c), o); if (o.empty()) o.push_back(Val()); for (size_t i = 0; i < o.size(); i++) fi->pool.push_back(o[o.size() - 1 - i]); at = ~(int32_t)(fi->pool.size() - 1); }
      else fi->pool.push_back(Val());
      // pool is indexed ~s; element i of an aggregate is at s+i, i.e. pool index decreasing
      cp[v] = at; return Opnd{at};
    };
    std::unordered_map<const BasicBlock*, u32> bstart, bnum; u32 bn = 0;
    for (auto& b : *F) bnum[&b] = bn++;
    fi->blockSeen.assign(bn, false);
    struct Fix { u32 edge; const BasicBlock *from, *to; };
    std::vector<Fix> fixes;
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> u32 {
      Edge e; e.copyBegin = fi->copies.size(); e.block = bnum[to]; e.target = 0;
      for (auto& phi : to->phis()) { PhiCopy pc; pc.dst = slot[&phi]; pc.src = opnd(phi.getIncomingValueForBlock(from)); pc.n = cnt(phi.getType()); fi->copies.push_back(pc); }
      e.copyEnd = fi->copies.size(); fi->edges.push_back(e); fixes.push_back({(u32)fi->edges.size() - 1, from, to}); return fi->edges.size() - 1;
    };
    auto width = [&](Type* t) -> unsigned { auto* ti = ty(t); return ti->leaves.empty() ? 0 : ti->leaves[0].w; };
    for (auto& b : *F) {
      bstart[&b] = fi->code.size();
      for (auto& I : b) {
        if (isa<PHINode>(I)) continue;
        Inst in; in.op = IUnsup; in.I = &I;
        if (slot.count(&I)) in.dst = slot[&I];
        if (!I.getType()->isVoidTy()) { in.w = width(I.getType()); in.n = cnt(I.getType()); }
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
          in.a = opnd(bo->getOperand(0)); in.b = opnd(bo->getOperand(1)); in.op = IBin;
          switch (bo->getOpcode()) {
            case Instruction::Add: in.sub = ADD; break; case Instruction::Sub: in.sub = SUB; break; case Instruction::Mul: in.sub = MUL; break;
            case Instruction::UDiv: in.sub = UDIV; break; case Instruction::SDiv: in.sub = SDIV; break; case Instruction::URem: in.sub = UREM; break; case Instruction::SRem: in.sub = SREM; break;
            case Instruction::And: in.sub = AND; break; case Instruction::Or: in.sub = OR; break; case Instruction::Xor: in.sub = XOR; break;
            case Instruction::Shl: in.sub = SHL; break; case Instruction::LShr: in.sub = LSHR; break; case Instruction::AShr: in.sub = ASHR; break;
            case Instruction::FAdd: in.op = IFBin; in.sub = FADD; break; case Instruction::FSub: in.op = IFBin; in.sub = FSUB; break; case Instruction::FMul: in.op = IFBin; in.sub = FMUL; break; case Instruction::FDiv: in.op = IFBin; in.sub = FDIV; break;
            default: in.op = IUnsup;
          }
          if (in.op == IFBin && in.w != 32 && in.w != 64) in.op = IUnsup;
        } else if (auto* uo = dyn_cast<UnaryOperator>(&I)) { in.op = IFUn; in.sub = FNEG; in.w2 = in.w; in.a = opnd(uo->getOperand(0)); }
        else if (auto* ci = dyn_cast<ICmpInst>(&I)) {
          in.op = ICmp; in.sub = ci->getPredicate(); in.a = opnd(ci->getOperand(0)); in.b = opnd(ci->getOperand(1)); in.w2 = width(ci->getOperand(0)->getType());
        } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
          in.op = IFCmp; in.sub = fc->getPredicate(); in.a = opnd(fc->getOperand(0)); in.b = opnd(fc->getOperand(1)); in.w2 = width(fc->getOperand(0)->getType());
        } else if (auto* si = dyn_cast<SelectInst>(&I)) {
          in.op = ISelect; in.a = opnd(si->getCondition()); in.b = opnd(si->getTrueValue()); in.c = opnd(si->getFalseValue()); in.ty = ty(I.getType()); in.x = isa<VectorType>(si->getCondition()->getType());
        } else if (auto* li = dyn_cast<LoadInst>(&I)) {
          in.op = ILoad; in.a = opnd(li->getPointerOperand()); in.ty = ty(I.getType()); in.y = in.ty->size;
        } else if (auto* st = dyn_cast<StoreInst>(&I)) {
          in.op = IStore; in.a = opnd(st->getPointerOperand()); in.b = opnd(st->getValueOperand()); in.ty = ty(st->getValueOperand()->getType()); in.y = in.ty->size;
        } else if (auto* gi = dyn_cast<GetElementPtrInst>(&I)) {
          in.op = IGep; in.a = opnd(gi->getPointerOperand()); in.off = 0;
          if (gi->getType()->isVectorTy()) in.op = IUnsup;
          for (auto it = gep_type_begin(gi), e = gep_type_end(gi); it != e; ++it) {
            Value* idx = it.getOperand();
            if (auto* sty = it.getStructTypeOrNull()) in.off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else {
              u64 es = DL->getTypeAllocSize(it.getIndexedType());
              if (auto* k = dyn_cast<ConstantInt>(idx)) in.off += k->getSExtValue() * (int64_t)es;
              else { in.gep.push_back({opnd(idx), es}); in.idx.push_back(width(idx->getType())); }
            }
          }
        } else if (auto* ai = dyn_cast<AllocaInst>(&I)) {
          in.op = IAlloca; in.off = DL->getTypeAllocSize(ai->getAllocatedType()); in.a = opnd(ai->getArraySize()); in.w2 = width(ai->getArraySize()->getType());
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { in.op = ICondBr; in.a = opnd(br->getCondition()); in.x = edge(&b, br->getSuccessor(0)); in.y = edge(&b, br->getSuccessor(1)); }
          else { in.op = IBr; in.x = edge(&b, br->getSuccessor(0)); }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          in.op = ISwitch; in.a = opnd(sw->getCondition()); in.w2 = width(sw->getCondition()->getType()); in.x = edge(&b, sw->getDefaultDest());
          for (auto& c : sw->cases()) { in.cases.push_back(c.getCaseValue()->getZExtValue()); in.idx.push_back(edge(&b, c.getCaseSuccessor())); }
        } else if (auto* ri = dyn_cast<ReturnInst>(&I)) {
          in.op = IRet; in.n = 0; if (ri->getReturnValue()) { in.a = opnd(ri->getReturnValue()); in.n = cnt(ri->getReturnValue()->getType()); }
        } else if (isa<UnreachableInst>(&I)) in.op = IUnreachable;
        else if (isa<FreezeInst>(&I) || isa<BitCastInst>(&I)) {
          in.op = ICopy; in.a = opnd(I.getOperand(0));
          if (cnt(I.getOperand(0)->getType()) != in.n) in.op = IUnsup;
        } else if (isa<ZExtInst>(&I) || isa<PtrToIntInst>(&I) || isa<IntToPtrInst>(&I)) {
          in.a = opnd(I.getOperand(0)); in.w2 = width(I.getOperand(0)->getType()); in.op = in.w == in.w2 ? ICopy : in.w > in.w2 ? ICastZ : ICastT;
        } else if (isa<SExtInst>(&I)) { in.op = ICastS; in.a = opnd(I.getOperand(0)); in.w2 = width(I.getOperand(0)->getType()); }
        else if (isa<TruncInst>(&I)) { in.op = ICastT; in.a = opnd(I.getOperand(0)); in.w2 = width(I.getOperand(0)->getType()); }
        else if (isa<FPToSIInst>(&I) || isa<FPToUIInst>(&I) || isa<SIToFPInst>(&I) || isa<UIToFPInst>(&I) || isa<FPExtInst>(&I) || isa<FPTruncInst>(&I)) {
          in.op = IFUn; in.a = opnd(I.getOperand(0)); in.w2 = width(I.getOperand(0)->getType());
          in.sub = isa<FPToSIInst>(&I) ? FP2SI : isa<FPToUIInst>(&I) ? FP2UI : isa<SIToFPInst>(&I) ? SI2FP : isa<UIToFPInst>(&I) ? UI2FP : isa<FPExtInst>(&I) ? FPEXT : FPTRUNC;
          if (in.w > 64 || in.w2 > 64) in.op = IUnsup;
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
          in.op = IExtractVal; in.a = opnd(ev->getAggregateOperand()); in.x = flatIdx(ev->getAggregateOperand()->getType(), ev->getIndices());
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
          in.op = IInsertVal; in.a = opnd(iv->getAggregateOperand()); in.b = opnd(iv->getInsertedValueOperand()); in.x = flatIdx(iv->getAggregateOperand()->getType(), iv->getIndices()); in.y = cnt(iv->getInsertedValueOperand()->getType());
        } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
          in.op = IExtElt; in.a = opnd(ee->getVectorOperand()); in.b = opnd(ee->getIndexOperand()); in.x = cnt(ee->getVectorOperand()->getType());
        } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
          in.op = IInsElt; in.a = opnd(ie->getOperand(0)); in.b = opnd(ie->getOperand(1)); in.c = opnd(ie->getOperand(2));
        } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
          in.op = IShuffle; in.a = opnd(sv->getOperand(0)); in.b = opnd(sv->getOperand(1)); in.x = cnt(sv->getOperand(0)->getType());
          for (int m : sv->getShuffleMask()) in.idx.push_back(m < 0 ? 0 : m);
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
          in.op = ICmpXchg; in.a = opnd(cx->getPointerOperand()); in.b = opnd(cx->getCompareOperand()); in.c = opnd(cx->getNewValOperand()); in.ty = ty(cx->getCompareOperand()->getType()); in.w = in.ty->leaves[0].w; in.y = in.ty->size;
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
          in.op = IRmw; in.a = opnd(rm->getPointerOperand()); in.b = opnd(rm->getValOperand()); in.ty = ty(I.getType()); in.sub = rm->getOperation(); in.y = in.ty->size;
        } else if (isa<FenceInst>(&I)) in.op = INop;
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (cb->isInlineAsm()) { in.op = INop; if (!I.getType()->isVoidTy()) in.op = IUnsup; }
          else {
            in.op = ICall;
            Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto* cf = dyn_cast<Function>(cv)) {
              in.builtin = builtinOf(cf);
              if (in.builtin == B_NONE) in.callee = fn(cf);
            } else in.a = opnd(cb->getCalledOperand());
            if (!isa<DbgInfoIntrinsic>(I) && in.builtin != B_NOP)
            for (unsigned k = 0; k < cb->arg_size(); k++) {
              Value* av = cb->getArgOperand(k);
              if (av->getType()->isMetadataTy()) { in.args.push_back(Opnd{0}); in.argN.push_back(0); continue; }
              in.args.push_back(opnd(av)); u32 c2 = cnt(av->getType());
              if (cb->isByValArgument(k)) { in.argN.push_back(0x80000000u | (u32)DL->getTypeAllocSize(cb->getParamByValType(k))); }
              else in.argN.push_back(c2);
              in.idx.push_back(width(av->getType()));
            }
          }
        }
        fi->code.push_back(std::move(in));
      }
    }
    for (auto& f : fixes) fi->edges[f.edge].target = bstart[f.to];
  }
  u32 flatIdx(Type* t, ArrayRef<unsigned> idx) {
    u32 r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += ty(st->getElementType(j))->leaves.size(); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); r += i * ty(at->getElementType())->leaves.size(); t = at->getElementType(); }
    }
    return r;
  }
  int builtinOf(Function* f) {
    StringRef n = f->getName();
    if (n.startswith("llvm.")) { int b = intrinsicBI(n); if (b != B_NONE) return b; }
    auto it = bi.find(n.str());
    if (it != bi.end() && (f->isDeclaration() || n.startswith("vf_"))) return it->second;
    if (f->isDeclaration()) { if (n.startswith("_ZSt") && (n.contains("__throw_") || n.contains("__glibcxx_assert_fail"))) return B_ABORT; if (n.startswith("__asan_") || n.startswith("__sanitizer_")) return B_NOP; }
    return B_NONE;
  }

  // ---------------------------------------------------------------- helpers
  Frame* top() { return S->stacks[S->cur].fr.back(); }
  static Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : mkK(v.c, w); }
  static Val fromE(Expr* e) { Val v; if (e->isK()) v.c = e->c; else v.e = e; return v; }
  static Val conc(u128 c) { Val v; v.c = c; return v; }

  std::string locOf(const Instruction* I) {
    if (!I) return "?";
    if (const DILocation* d = I->getDebugLoc()) return (d->getFilename() + ":" + Twine(d->getLine())).str();
    return "?";
  }
  static std::string shortName(const std::string& m) { std::string d = demangle(m); if (d.size() > 160) d = d.substr(0, 157) + "..."; return d; }
  std::vector<std::string> backtrace() {
    std::vector<std::string> r; auto& fr = S->stacks[S->cur].fr;
    for (size_t i = fr.size(); i-- > 0 && r.size() < 24;) {
      Frame* f = fr[i]; u32 pc = i + 1 == fr.size() ? f->pc : f->pc - 1;
      r.push_back(shortName(f->f->name) + " at " + locOf(pc < f->f->code.size() ? f->f->code[pc].I : nullptr));
    }
    return r;
  }
  std::vector<std::string> dumpInputs(const Model& m) {
    std::vector<std::string> r;
    for (auto& in : S->inputs) { u64 v = in.e ? (u64)evalExpr(in.e, m) : in.c; r.push_back(sfmt("%s %u %llx", in.name.c_str(), in.w, (unsigned long long)v)); }
    return r;
  }
  void report(const std::string& kind, const std::string& msg, const Model& m) {
    auto bt = backtrace();
    std::string loc = bt.empty() ? "?" : bt[0];
    std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + loc);
    if (!violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.trace = bt; v.inputs = dumpInputs(m);
    viols.push_back(v);
    if (opt.verbose) { fprintf(stderr, "VIOLATION %s: %s\n", kind.c_str(), msg.c_str()); for (auto& t : bt) fprintf(stderr, "    %s\n", t.c_str()); for (auto& i : v.inputs) fprintf(stderr, "    in %s\n", i.c_str()); }
    if (viols.size() >= opt.maxViolations) stopAll = true;
  }
  void incomplete(const std::string& why) {
    incompletes[why]++;
    if (opt.verbose && incompletes[why] == 1) { fprintf(stderr, "INCOMPLETE %s\n", why.c_str()); for (auto& t : backtrace()) fprintf(stderr, "    %s\n", t.c_str()); }
  }

  // slice of the path condition relevant to e
  std::vector<u32> mark; u32 markEpoch = 0;
  void slice(Expr* e, std::vector<Expr*>& out) {
    markEpoch++; if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 1024, 0);
    for (u32 v : e->vs->v) mark[v] = markEpoch;
    std::vector<char> used(S->pc.size(), 0); bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = S->pc.size(); i-- > 0;) if (!used[i]) {
        bool hit = false; for (u32 v : S->pc[i]->vs->v) if (mark[v] == markEpoch) { hit = true; break; }
        if (hit) { used[i] = 1; out.push_back(S->pc[i]); for (u32 v : S->pc[i]->vs->v) if (mark[v] != markEpoch) { mark[v] = markEpoch; ch = true; } }
      }
    }
  }
  // feasibility of pc && e; on SAT gives a model of the whole path condition
  Res feasible(Expr* e, std::shared_ptr<Model>* out) {
    if (e->isK()) { if (e->c) { if (out) *out = S->model; return SAT; } return UNSAT; }
    std::vector<Expr*> cs; slice(e, cs);
    for (Expr* x : cs) if (isNeg(x, e)) return UNSAT;
    cs.push_back(e);
    std::vector<std::pair<u32, u128>> m;
    Res r = solver.check(cs, &m);
    if (r == SAT && out) { auto nm = std::make_shared<Model>(*S->model); nm->id = newModelId(); for (auto& p : m) nm->v[p.first] = p.second; *out = nm; }
    return r;
  }
  static bool isNeg(Expr* a, Expr* b) { return (a->op == XOR && a->w == 1 && a->k[1]->isK() && a->k[0] == b) || (b->op == XOR && b->w == 1 && b->k[1]->isK() && b->k[0] == a); }
  static void addC(State* s, Expr* e) {
    if (e->isK()) return;
    if (e->op == AND && e->w == 1) { addC(s, e->k[0]); addC(s, e->k[1]); return; }
    s->pc.push_back(e);
  }
  State* forkState() { State* n = new State(*S); n->depth++; S->depth++; if (S->depth > maxDepth) maxDepth = S->depth; forks++; return n; }

  // Decide a symbolic condition without forking when implied; returns 1/0, or 2 when both feasible (fills models), -1 unknown.
  int decide(Expr* c, std::shared_ptr<Model>& other) {
    bool v = evalExpr(c, *S->model);
    Expr* oc = v ? mkNot(c) : c;
    Res r = feasible(oc, &other);
    if (r == UNSAT) return v;
    if (r == UNKNOWN) return -1;
    return 2 + v;
  }
  // Fork so that cond gets a definite value in the current state. The other state re-executes the current instruction.
  // returns the value in the current state.
  bool splitHere(Expr* c) {
    if (c->isK()) return c->c;
    std::shared_ptr<Model> om; int d = decide(c, om);
    if (d == 0 || d == 1) return d;
    if (d == -1) { incomplete("solver: unknown on a case split"); bool v = evalExpr(c, *S->model); addC(S, v ? c : mkNot(c)); return v; }
    bool v = d == 3;
    State* o = forkState(); addC(o, v ? mkNot(c) : c); o->model = om; work.push_back(o);
    addC(S, v ? c : mkNot(c));
    return v;
  }
  // Property or safety condition that must hold; false means the path must stop.
  bool require(Expr* c, const char* kind, const std::string& msg) {
    if (c->isK() && c->c) return true;
    if (c->isK()) { report(kind, msg, *S->model); return false; }
    ubChecks++;
    if (!evalExpr(c, *S->model)) {
      report(kind, msg, *S->model);
      std::shared_ptr<Model> m; Res r = feasible(c, &m);
      if (r != SAT) { if (r == UNKNOWN) incomplete("solver: unknown after violation"); return false; }
      addC(S, c); S->model = m; return true;
    }
    std::shared_ptr<Model> m; Res r = feasible(mkNot(c), &m);
    if (r == UNSAT) return true;
    if (r == UNKNOWN) { incomplete(std::string("solver: unknown while deciding ") + kind + ": " + msg); addC(S, c); return true; }
    report(kind, msg, *m); addC(S, c); return true;
  }
  // Make a value concrete by forking over its feasible values.
  u128 concretize(const Val& v, unsigned w) {
    if (!v.e) return v.c;
    u128 k = evalExpr(v.e, *S->model);
    splitHere(mkEq(v.e, mkK(k, w)));
    return k;
  }
  void crash(const std::string& kind, const std::string& msg) {
    if (S->allowCrash && kind == "abort") { allowedCrash[msg]++; return; }
    report(kind, msg, *S->model);
  }

  static unsigned strideOf(Expr* e, u64& res) {  // e ≡ res (mod stride), stride a power of two
    res = 0;
    switch (e->op) {
      case K: res = (u64)e->c; return 4096;
      case CONCAT: { u64 r; unsigned lw = e->k[1]->w; if (e->k[1]->isK() && lw < 13) { res = (u64)e->k[1]->c; return 1u << lw; } if (lw < 13) { unsigned s = strideOf(e->k[1], r); res = r; return std::min(s, 1u << lw); } unsigned s = strideOf(e->k[1], r); res = r; return s; }
      case ADD: { u64 r1, r2; unsigned a = strideOf(e->k[0], r1), b = strideOf(e->k[1], r2); unsigned m = std::min(a, b); res = (r1 + r2) & (m - 1); return m; }
      case MUL: { if (!e->k[1]->isK()) return 1; u64 c = (u64)e->k[1]->c; unsigned s = 1; while (s < 4096 && !(c & s)) s <<= 1; return s; }
      case ZEXT: case SEXT: { u64 r; unsigned s = strideOf(e->k[0], r); res = r; return s; }
      case ITE: { u64 r1, r2; unsigned a = strideOf(e->k[1], r1), b = strideOf(e->k[2], r2); unsigned m = std::min(a, b); while (m > 1 && ((r1 ^ r2) & (m - 1))) m >>= 1; res = r1 & (m - 1); return m; }
      default: return 1;
    }
  }

  // Resolve an access of n bytes. On success returns object; off is concrete (symOff null) or symbolic.
  // Returns null when the path must stop; sets retry when the instruction must be re-executed.
  Obj* resolve(const Val& p, u64 n, bool write, u64& off, Expr*& symOff, const char* what) {
    symOff = nullptr;
    if (p.e) {
      u64 a = (u64)evalExpr(p.e, *S->model);
      Obj* o = S->mem.find(a);
      if (!o || o->freed || a - o->addr + n > o->size) {
        // The model itself is out of bounds. Report, then continue with in-bounds values if any.
        memFault(a, n, write, what);
        // keep only pointers that differ from this address
        Expr* c = mkNot(mkEq(p.e, mkK(a, 64)));
        std::shared_ptr<Model> m; if (!stopAll && feasible(c, &m) == SAT) incomplete("out-of-bounds pointer: remaining values of the pointer not explored");
        return nullptr;
      }
      Expr* rel = mkBin(SUB, p.e, mkK(o->addr, 64));
      Expr* inb = mkUle(rel, mkK(o->size - n, 64));
      if (!splitHere(inb)) { /* cannot happen: the model is in bounds */ return nullptr; }
      if (rel->isK()) { off = (u64)rel->c; return o; }
      u64 cells = o->size - n + 1; u64 res; unsigned st = strideOf(rel, res);
      if (cells / st > 300 || n > 16) { u128 k = concretize(fromE(rel), 64); off = (u64)k; return o; }
      symOff = rel; off = 0; return o;
    }
    u64 a = (u64)p.c; Obj* o = S->mem.find(a);
    if (!o || o->freed || a - o->addr + n > o->size || (write && o->ro)) { memFault(a, n, write, what); return nullptr; }
    off = a - o->addr; return o;
  }
  void memFault(u64 a, u64 n, bool write, const char* what) {
    Obj* o = S->mem.find(a); std::string d;
    if (a < 4096) d = sfmt("null pointer %s", what);
    else if (!o) d = sfmt("invalid pointer %s", what);
    else if (o->freed) d = sfmt("use after free: %s", what);
    else if (write && o->ro && a - o->addr + n <= o->size) d = "write to constant";
    else d = sfmt("out of bounds %s: offset %llu+%llu of %llu-byte object", what, (unsigned long long)(a - o->addr), (unsigned long long)n, (unsigned long long)o->size);
    report("memory", d, *S->model);
  }
  static Expr* byteAt(Obj* o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : mkK(o->data[i], 8); }
  static Val readC(Obj* o, u64 off, unsigned w) {
    unsigned nb = (w + 7) / 8; bool s = false;
    if (o->sym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { s = true; break; }
    Val v;
    if (!s) { u128 r = 0; memcpy(&r, o->data + off, nb); v.c = r & maskw(w); return v; }
    Expr* e = byteAt(o, off);
    for (unsigned i = 1; i < nb; i++) e = mkConcat(byteAt(o, off + i), e);
    if (w != nb * 8) e = mkExtract(e, 0, w);
    return fromE(e);
  }
  static void writeC(Obj* o, u64 off, unsigned w, const Val& v) {  // o writable
    unsigned nb = (w + 7) / 8;
    if (!v.e) { u128 c = v.c & maskw(w); memcpy(o->data + off, &c, nb); if (o->sym) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr; return; }
    if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
    Expr* e = v.e; if (w != nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) { Expr* b = mkExtract(e, 8 * i, 8); if (b->isK()) { o->sym[off + i] = nullptr; o->data[off + i] = (uint8_t)b->c; } else { o->sym[off + i] = b; o->data[off + i] = 0; } }
  }
  Val readSym(Obj* o, Expr* off, unsigned w, u64 total, u64 leafOff) {
    u64 res; unsigned st = strideOf(off, res); Expr* r = nullptr;
    for (u64 k = res % st; k + total <= o->size; k += st) {
      Val c = readC(o, k + leafOff, w); Expr* ce = ex(c, w);
      r = r ? mkIte(mkEq(off, mkK(k, 64)), ce, r) : ce;
    }
    return fromE(r);
  }
  void writeSym(Obj* o, Expr* off, unsigned w, u64 total, u64 leafOff, const Val& v) {
    u64 res; unsigned st = strideOf(off, res);
    for (u64 k = res % st; k + total <= o->size; k += st) {
      Val c = readC(o, k + leafOff, w);
      writeC(o, k + leafOff, w, fromE(mkIte(mkEq(off, mkK(k, 64)), ex(v, w), ex(c, w))));
    }
  }
  // read a C string (concrete)
  std::string cstr(const Val& p) {
    std::string r; u64 a = (u64)(p.e ? evalExpr(p.e, *S->model) : p.c); Obj* o = S->mem.find(a); if (!o) return "?";
    for (u64 i = a - o->addr; i < o->size; i++) { if (o->sym && o->sym[i]) { r += (char)evalExpr(o->sym[i], *S->model); continue; } if (!o->data[i]) break; r += (char)o->data[i]; }
    return r;
  }

  // ---------------------------------------------------------------- main loop
  void jump(Frame* fr, u32 edge) {
    Edge& e = fr->f->edges[edge];
    fr->f->blockSeen[e.block] = true;
    u32 n = e.copyEnd - e.copyBegin;
    if (n == 1 && fr->f->copies[e.copyBegin].n == 1) { PhiCopy& c = fr->f->copies[e.copyBegin]; fr->regs[c.dst] = c.src.s >= 0 ? fr->regs[c.src.s] : fr->f->pool[~c.src.s]; }
    else if (n) {
      static std::vector<Val> tmp; tmp.clear();
      for (u32 i = e.copyBegin; i < e.copyEnd; i++) { PhiCopy& c = fr->f->copies[i]; for (u32 j = 0; j < c.n; j++) tmp.push_back(c.src.s >= 0 ? fr->regs[c.src.s + j] : fr->f->pool[~(c.src.s + (int32_t)j)]); }
      u32 t = 0; for (u32 i = e.copyBegin; i < e.copyEnd; i++) { PhiCopy& c = fr->f->copies[i]; for (u32 j = 0; j < c.n; j++) fr->regs[c.dst + j] = tmp[t++]; }
    }
    fr->pc = e.target;
  }
  bool pushFrame(FnInfo* f, const std::vector<Val>& args, int32_t retDst) {
    if (!f->built) build(f);
    auto& st = S->stacks[S->cur].fr;
    if (st.size() > 2000) { report("memory", "stack overflow (unbounded recursion)", *S->model); return false; }
    Frame* n = new Frame; n->f = f; n->retDst = retDst; n->regs.resize(f->nslots);
    for (size_t i = 0; i < args.size() && i < f->nslots; i++) n->regs[i] = args[i];
    f->calls++; f->blockSeen[0] = true;
    st.push_back(n); return true;
  }
  // pops the top frame; returns false if the stack became empty
  bool popFrame() {
    auto& st = S->stacks[S->cur].fr; Frame* f = st.back();
    for (u64 a : f->allocas) { Obj* o = S->mem.find(a); if (o) S->mem.drop(o); }
    st.pop_back(); if (--f->rc == 0) delete f;
    if (st.empty()) return false;
    Frame* t = st.back(); if (t->rc > 1) { t->rc--; Frame* c = new Frame(*t); c->rc = 1; st.back() = c; }
    return true;
  }

  static Op cmpOp(unsigned pred, bool& swap, bool& neg) {
    swap = neg = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: return EQ; case CmpInst::ICMP_NE: neg = true; return EQ;
      case CmpInst::ICMP_ULT: return ULT; case CmpInst::ICMP_UGE: neg = true; return ULT; case CmpInst::ICMP_UGT: swap = true; return ULT; case CmpInst::ICMP_ULE: swap = neg = true; return ULT;
      case CmpInst::ICMP_SLT: return SLT; case CmpInst::ICMP_SGE: neg = true; return SLT; case CmpInst::ICMP_SGT: swap = true; return SLT; default: swap = neg = true; return SLT;
    }
  }
  Val cmpV(unsigned pred, const Val& a, const Val& b, unsigned w) {
    bool sw, ng; Op op = cmpOp(pred, sw, ng);
    if (!a.e && !b.e) { u128 r = sw ? foldOp(op, 1, b.c, w, a.c, w, 0, 0) : foldOp(op, 1, a.c, w, b.c, w, 0, 0); return conc(r != (u128)ng); }
    Expr* x = ex(a, w); Expr* y = ex(b, w); Expr* r = sw ? mkBin(op, y, x) : mkBin(op, x, y); return fromE(ng ? mkNot(r) : r);
  }
  Val fcmpV(unsigned pred, const Val& a, const Val& b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w); auto uno = [&] { return mkF(FUNO, 1, x, y); };
    Expr* r;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = mkK(0, 1); break; case CmpInst::FCMP_TRUE: r = mkK(1, 1); break;
      case CmpInst::FCMP_OEQ: r = mkF(FOEQ, 1, x, y); break; case CmpInst::FCMP_OLT: r = mkF(FOLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = mkF(FOLE, 1, x, y); break;
      case CmpInst::FCMP_OGT: r = mkF(FOLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = mkF(FOLE, 1, y, x); break;
      case CmpInst::FCMP_ONE: r = mkAnd(mkNot(mkF(FOEQ, 1, x, y)), mkNot(uno())); break;
      case CmpInst::FCMP_ORD: r = mkNot(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break;
      case CmpInst::FCMP_UEQ: r = mkOr(mkF(FOEQ, 1, x, y), uno()); break; case CmpInst::FCMP_ULT: r = mkNot(mkF(FOLE, 1, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkF(FOLT, 1, y, x)); break;
      case CmpInst::FCMP_UGT: r = mkNot(mkF(FOLE, 1, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkF(FOLT, 1, x, y)); break;
      default: r = mkNot(mkF(FOEQ, 1, x, y)); break;  // UNE
    }
    return fromE(r);
  }
  // Shift amounts outside the word are undefined; the replay's hardware takes them modulo the width, and so does this.
  Val binV(Op op, const Val& a, const Val& b0, unsigned w) {
    Val b = b0;
    if ((op == SHL || op == LSHR || op == ASHR) && (w == 32 || w == 64)) {
      if (!b.e) b.c &= w - 1;
      else if (b.e->umax >= w) b = fromE(mkBin(AND, b.e, mkK(w - 1, w)));
    }
    if (!a.e && !b.e) return conc(foldOp(op, w, a.c, w, b.c, w, 0, 0));
    return fromE(mkBin(op, ex(a, w), ex(b, w)));
  }

  // Runs state S until it ends.
  void runState() {
    Frame* fr = top();
#define VAL(o) ((o).s >= 0 ? fr->regs[(o).s] : fr->f->pool[~(o).s])
#define VALI(o, i) ((o).s >= 0 ? fr->regs[(o).s + (i)] : fr->f->pool[~((o).s + (int32_t)(i))])
    for (;;) {
      if (stopAll) return;
      Inst& in = fr->f->code[fr->pc];
      S->steps++;
      if ((++steps & 1023) == 0) {
        if (now() - tStart > opt.timeout) { incomplete("engine time limit reached"); stopAll = true; return; }
        if (S->steps > opt.maxStepsPath) { report("nontermination", sfmt("path exceeded %llu instructions", (unsigned long long)opt.maxStepsPath), *S->model); return; }
      }
      switch (in.op) {
        case INop: fr->pc++; break;
        case IBin: {
          Op op = (Op)in.sub;
          for (u32 i = 0; i < in.n; i++) {
            const Val& a = VALI(in.a, i); const Val& b = VALI(in.b, i);
            if (op >= UDIV && op <= SREM) {
              if (b.e) { if (!require(mkNot(mkEq(b.e, mkK(0, in.w))), "arith", "division by zero")) return; }
              else if (!b.c) { report("arith", "division by zero", *S->model); return; }
            }
            if (!a.e && !b.e && in.w <= 64 && op != SDIV && op != SREM && op != ASHR) {
              u64 x = (u64)a.c, y = (u64)b.c, r = 0; u64 m = in.w == 64 ? ~0ull : ((1ull << in.w) - 1);
              switch (op) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case UDIV: r = x / y; break; case UREM: r = x % y; break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break; case SHL: r = in.w == 32 || in.w == 64 ? x << (y & (in.w - 1)) : y >= in.w ? 0 : x << y; break; case LSHR: r = in.w == 32 || in.w == 64 ? x >> (y & (in.w - 1)) : y >= in.w ? 0 : x >> y; break; default: break; }
              Val v; v.c = r & m; fr->regs[in.dst + i] = v;
            } else fr->regs[in.dst + i] = binV(op, a, b, in.w);
          }
          fr->pc++; break;
        }
        case IFBin: for (u32 i = 0; i < in.n; i++) { const Val& a = VALI(in.a, i); const Val& b = VALI(in.b, i); fr->regs[in.dst + i] = !a.e && !b.e ? conc(foldOp((Op)in.sub, in.w, a.c, in.w, b.c, in.w, 0, 0)) : fromE(mkF((Op)in.sub, in.w, ex(a, in.w), ex(b, in.w))); } fr->pc++; break;
        case IFUn: for (u32 i = 0; i < in.n; i++) { const Val& a = VALI(in.a, i); fr->regs[in.dst + i] = !a.e ? conc(foldOp((Op)in.sub, in.w, a.c, in.w2, 0, 0, 0, 0)) : fromE(mkF((Op)in.sub, in.w, a.e)); } fr->pc++; break;
        case ICmp: for (u32 i = 0; i < in.n; i++) fr->regs[in.dst + i] = cmpV(in.sub, VALI(in.a, i), VALI(in.b, i), in.w2); fr->pc++; break;
        case IFCmp: for (u32 i = 0; i < in.n; i++) fr->regs[in.dst + i] = fcmpV(in.sub, VALI(in.a, i), VALI(in.b, i), in.w2); fr->pc++; break;
        case ISelect: {
          const Val& c = VAL(in.a);
          if (!c.e && !in.x) { for (u32 i = 0; i < in.n; i++) { Val v = c.c ? VALI(in.b, i) : VALI(in.c, i); fr->regs[in.dst + i] = v; } }
          else for (u32 i = 0; i < in.n; i++) {
            const Val& ci = in.x ? VALI(in.a, i) : c; unsigned w = in.ty->leaves[i].w;
            Val r; if (!ci.e) r = ci.c ? VALI(in.b, i) : VALI(in.c, i); else r = fromE(mkIte(ci.e, ex(VALI(in.b, i), w), ex(VALI(in.c, i), w)));
            fr->regs[in.dst + i] = r;
          }
          fr->pc++; break;
        }
        case ICastZ: for (u32 i = 0; i < in.n; i++) { const Val& a = VALI(in.a, i); Val r = a.e ? fromE(mkZExt(a.e, in.w)) : a; fr->regs[in.dst + i] = r; } fr->pc++; break;
        case ICastS: for (u32 i = 0; i < in.n; i++) { const Val& a = VALI(in.a, i); Val r = a.e ? fromE(mkSExt(a.e, in.w)) : conc((u128)sextv(a.c, in.w2) & maskw(in.w)); fr->regs[in.dst + i] = r; } fr->pc++; break;
        case ICastT: for (u32 i = 0; i < in.n; i++) { const Val& a = VALI(in.a, i); Val r = a.e ? fromE(mkExtract(a.e, 0, in.w)) : conc(a.c & maskw(in.w)); fr->regs[in.dst + i] = r; } fr->pc++; break;
        case ICopy: for (u32 i = 0; i < in.n; i++) { Val r = VALI(in.a, i); fr->regs[in.dst + i] = r; } fr->pc++; break;
        case IGep: {
          const Val& p = VAL(in.a); bool sym = p.e;
          for (auto& g : in.gep) if (VAL(g.first).e) sym = true;
          if (!sym) {
            u64 r = (u64)p.c + in.off; for (size_t i = 0; i < in.gep.size(); i++) r += (u64)sextv(VAL(in.gep[i].first).c, in.idx[i]) * in.gep[i].second;
            fr->regs[in.dst] = conc(r);
          } else {
            Expr* r = ex(p, 64);
            for (size_t i = 0; i < in.gep.size(); i++) { Expr* x = ex(VAL(in.gep[i].first), in.idx[i]); x = in.idx[i] < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64); r = mkBin(ADD, r, mkBin(MUL, x, mkK(in.gep[i].second, 64))); }
            fr->regs[in.dst] = fromE(mkBin(ADD, r, mkK((u64)in.off, 64)));
          }
          fr->pc++; break;
        }
        case IAlloca: {
          const Val& nv = VAL(in.a); u128 k = nv.e ? concretize(nv, in.w2) : nv.c;
          Obj* o = S->mem.alloc((u64)k * in.off, OStack, 0xAA); fr->allocas.push_back(o->addr); fr->regs[in.dst] = conc(o->addr); fr->pc++; break;
        }
        case ILoad: {
          u64 off; Expr* so; Obj* o = resolve(VAL(in.a), in.y, false, off, so, "read"); if (!o) return;
          for (u32 i = 0; i < in.n; i++) { auto& l = in.ty->leaves[i]; fr->regs[in.dst + i] = so ? readSym(o, so, l.w, in.y, l.off) : readC(o, off + l.off, l.w); }
          fr->pc++; break;
        }
        case IStore: {
          u64 off; Expr* so; Obj* o = resolve(VAL(in.a), in.y, true, off, so, "write"); if (!o) return;
          o = S->mem.writable(o);
          for (u32 i = 0; i < in.ty->leaves.size(); i++) { auto& l = in.ty->leaves[i]; if (so) writeSym(o, so, l.w, in.y, l.off, VALI(in.b, i)); else writeC(o, off + l.off, l.w, VALI(in.b, i)); }
          fr->pc++; break;
        }
        case IRmw: {
          u64 off; Expr* so; Val p = VAL(in.a); if (p.e) p = conc(concretize(p, 64)); Obj* o = resolve(p, in.y, true, off, so, "atomic"); if (!o) return;
          o = S->mem.writable(o); unsigned w = in.ty->leaves[0].w; Val old = readC(o, off, w); Val b = VAL(in.b); Val nv;
          switch (in.sub) {
            case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = binV(ADD, old, b, w); break; case AtomicRMWInst::Sub: nv = binV(SUB, old, b, w); break;
            case AtomicRMWInst::And: nv = binV(AND, old, b, w); break; case AtomicRMWInst::Or: nv = binV(OR, old, b, w); break; case AtomicRMWInst::Xor: nv = binV(XOR, old, b, w); break;
            default: incomplete("unsupported atomicrmw"); return;
          }
          writeC(o, off, w, nv); fr->regs[in.dst] = old; fr->pc++; break;
        }
        case ICmpXchg: {
          u64 off; Expr* so; Val p = VAL(in.a); if (p.e) p = conc(concretize(p, 64)); Obj* o = resolve(p, in.y, true, off, so, "atomic"); if (!o) return;
          unsigned w = in.ty->leaves[0].w; Val old = readC(o, off, w); Val eq = cmpV(CmpInst::ICMP_EQ, old, VAL(in.b), w);
          bool q = eq.e ? splitHere(eq.e) : eq.c != 0;
          if (q) { o = S->mem.writable(o); writeC(o, off, w, VAL(in.c)); }
          fr->regs[in.dst] = old; fr->regs[in.dst + 1] = conc(q); fr->pc++; break;
        }
        case IExtractVal: for (u32 i = 0; i < in.n; i++) { Val r = VALI(in.a, in.x + i); fr->regs[in.dst + i] = r; } fr->pc++; break;
        case IInsertVal: { for (u32 i = 0; i < in.n; i++) { Val r = i >= in.x && i < in.x + in.y ? VALI(in.b, i - in.x) : VALI(in.a, i); fr->regs[in.dst + i] = r; } fr->pc++; break; }
        case IExtElt: { const Val& ix = VAL(in.b); u64 k = (u64)(ix.e ? concretize(ix, 64) : ix.c); Val r = VALI(in.a, k % in.x); fr->regs[in.dst] = r; fr->pc++; break; }
        case IInsElt: { const Val& ix = VAL(in.c); u64 k = (u64)(ix.e ? concretize(ix, 64) : ix.c); for (u32 i = 0; i < in.n; i++) { Val r = i == k ? VAL(in.b) : VALI(in.a, i); fr->regs[in.dst + i] = r; } fr->pc++; break; }
        case IShuffle: { std::vector<Val> t; for (u32 i = 0; i < in.n; i++) { u32 m = in.idx[i]; t.push_back(m < in.x ? VALI(in.a, m) : VALI(in.b, m - in.x)); } for (u32 i = 0; i < in.n; i++) fr->regs[in.dst + i] = t[i]; fr->pc++; break; }
        case IBr: jump(fr, in.x); break;
        case ICondBr: {
          const Val& c = VAL(in.a);
          if (!c.e) { jump(fr, c.c ? in.x : in.y); break; }
          std::shared_ptr<Model> om; int d = decide(c.e, om);
          if (d < 0) { incomplete("solver: unknown on a branch"); bool v = evalExpr(c.e, *S->model); Expr* ce = c.e; addC(S, v ? ce : mkNot(ce)); jump(fr, v ? in.x : in.y); break; }
          if (d < 2) { jump(fr, d ? in.x : in.y); break; }
          bool v = d == 3; Expr* ce = c.e;
          State* o = forkState(); addC(o, v ? mkNot(ce) : ce); o->model = om; jump(o->stacks[o->cur].fr.back(), v ? in.y : in.x); work.push_back(o);
          addC(S, v ? ce : mkNot(ce)); jump(fr, v ? in.x : in.y);
          break;
        }
        case ISwitch: {
          const Val& c = VAL(in.a);
          if (!c.e) { u32 e = in.x; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { e = in.idx[i]; break; } jump(fr, e); break; }
          // group the cases by target edge destination
          u128 k = evalExpr(c.e, *S->model); u32 e = in.x; Expr* cond = nullptr; Expr* anyCase = nullptr;
          std::map<u32, Expr*> byTarget;
          for (size_t i = 0; i < in.cases.size(); i++) { Expr* q = mkEq(c.e, mkK(in.cases[i], in.w2)); u32 t = fr->f->edges[in.idx[i]].target; Expr*& b = byTarget[t]; b = b ? mkOr(b, q) : q; anyCase = anyCase ? mkOr(anyCase, q) : q; if (in.cases[i] == k) e = in.idx[i]; }
          if (e == in.x) cond = anyCase ? mkNot(anyCase) : mkK(1, 1); else cond = byTarget[fr->f->edges[e].target];
          // phi copies may differ per case value even with the same target
          if (e != in.x && fr->f->edges[e].copyBegin != fr->f->edges[e].copyEnd) cond = mkEq(c.e, mkK(k, in.w2));
          splitHere(cond); jump(fr, e); break;
        }
        case IUnreachable: report("unreachable", "reached code the compiler proved impossible (undefined behaviour)", *S->model); return;
        case IRet: {
          Val rv[16]; std::vector<Val> big; Val* r = rv; if (in.n > 16) { big.resize(in.n); r = big.data(); }
          for (u32 i = 0; i < in.n; i++) r[i] = VALI(in.a, i);
          int32_t d = fr->retDst; u32 n = in.n;
          if (!popFrame()) { pathEnd(); return; }
          fr = top(); if (d >= 0) for (u32 i = 0; i < n; i++) fr->regs[d + i] = r[i];
          break;
        }
        case ICall: {
          if (in.builtin >= 0) { int r = doBuiltin(in, fr); if (r == 0) return; fr = top(); break; }
          FnInfo* f = in.callee;
          if (!f) {
            u64 a = (u64)concretize(VAL(in.a), 64); auto it = fnByAddr.find(a);
            if (it == fnByAddr.end()) { report("memory", a < 4096 ? "call through null pointer" : "call through invalid function pointer", *S->model); return; }
            f = fn(it->second);
            int b = builtinOf(it->second);
            if (b >= 0) { int save = in.builtin; in.builtin = b; int r = doBuiltin(in, fr); in.builtin = save; if (r == 0) return; fr = top(); break; }
          }
          if (f->F->isDeclaration()) { incomplete("call to external function " + f->name); return; }
          std::vector<Val> args; std::vector<u64> bv; u32 fixed = f->F->arg_size();
          for (size_t i = 0; i < in.args.size(); i++) {
            if (i >= fixed) break;  // varargs are not supported beyond the fixed part
            u32 n = in.argN[i];
            if (n & 0x80000000u) {
              u64 sz = n & 0x7fffffff; Val p = VAL(in.args[i]); if (p.e) p = conc(concretize(p, 64));
              u64 off; Expr* so; Obj* o = resolve(p, sz, false, off, so, "byval copy"); if (!o) return;
              Obj* d = S->mem.alloc(sz, OStack, 0); memcpy(d->data, o->data + off, sz);
              if (o->sym) { d->sym = (Expr**)calloc(sz ? sz : 1, sizeof(Expr*)); memcpy(d->sym, o->sym + off, sz * sizeof(Expr*)); }
              bv.push_back(d->addr); args.push_back(conc(d->addr));
            } else for (u32 j = 0; j < n; j++) args.push_back(VALI(in.args[i], j));
          }
          fr->pc++;
          if (!pushFrame(f, args, in.dst)) return;
          fr = top(); for (u64 a : bv) fr->allocas.push_back(a);
          break;
        }
        default: {
          std::string s; raw_string_ostream os(s); in.I->print(os); incomplete("unsupported instruction " + s); return;
        }
      }
    }
  }
  void pathEnd() {
    if ((endedQuiet & (endedQuiet - 1)) == 0 && sampleInputs.size() < 20) { auto v = dumpInputs(*S->model); std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "\n" : "") + v[i]; sampleInputs.push_back(s); }
    endedQuiet++;
  }

  // returns 0 when the path ends
  int doBuiltin(Inst& in, Frame* fr) {
    auto A = [&](size_t i) -> const Val& { return VAL(in.args[i]); };
    auto ret = [&](const Val& v) { if (in.dst >= 0) fr->regs[in.dst] = v; };
    auto W = [&](size_t i) { return in.idx[i]; };
    switch (in.builtin) {
      case B_NOP: break;
      case B_RET0: ret(conc(0)); break;
      case B_RET1: ret(conc(1)); break;
      case B_RETARG: ret(A(0)); break;
      case B_ISCONST: ret(conc(0)); break;
      case B_EXPECT: break;
      case B_ASSERT: {
        std::string msg = cstr(A(1)); assertMsgs[msg]++;
        const Val& v = A(0); assertChecks++;
        if (!v.e) { assertConcrete++; if (!v.c) { report("assert", msg, *S->model); return 0; } break; }
        Expr* c = v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkK(0, v.e->w)));
        size_t nv = viols.size();
        if (!require(c, "assert", msg)) return 0;
        if (viols.size() == nv) assertProved++;
        break;
      }
      case B_ASSUME: {
        const Val& v = A(0);
        if (!v.e) { if (!v.c) { assumedOut++; return 0; } break; }
        Expr* c = v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkK(0, v.e->w)));
        if (evalExpr(c, *S->model)) { addC(S, c); break; }
        std::shared_ptr<Model> m; Res r = feasible(c, &m);
        if (r == UNSAT) { assumedOut++; return 0; }
        if (r == UNKNOWN) { incomplete("solver: unknown on an assumption"); return 0; }
        addC(S, c); S->model = m; break;
      }
      case B_U8: case B_U16: case B_U32: case B_U64: {
        unsigned w = in.builtin == B_U8 ? 8 : in.builtin == B_U16 ? 16 : in.builtin == B_U32 ? 32 : 64;
        std::string n = cstr(A(0)); Expr* e = freshVar(n, w); S->inputs.push_back({n, e, 0, w}); ret(fromE(e)); break;
      }
      case B_BYTES: {
        Val p = A(0); if (p.e) p = conc(concretize(p, 64)); u64 n = (u64)concretize(A(1), 64); std::string nm = cstr(A(2));
        if (!n) break;
        u64 off; Expr* so; Obj* o = resolve(p, n, true, off, so, "vf_bytes"); if (!o) return 0; o = S->mem.writable(o);
        for (u64 i = 0; i < n; i++) { std::string x = nm + "[" + std::to_string(i) + "]"; Expr* e = freshVar(x, 8); S->inputs.push_back({x, e, 0, 8}); writeC(o, off + i, 8, fromE(e)); }
        break;
      }
      case B_CHOICE: {
        u64 n = (u64)concretize(A(0), 32); std::string nm = cstr(A(1));
        if (n == 0) return 0;
        Expr* e = freshVar(nm, 32);
        fr->pc++;
        for (u64 k = n; k-- > 1;) {
          State* o = forkState(); o->inputs.push_back({nm, nullptr, k, 32}); o->stacks[o->cur].fr.back()->regs[in.dst] = conc(k);
          auto m = std::make_shared<Model>(*S->model); m->id = newModelId(); m->v[e->a] = k; o->model = m; addC(o, mkEq(e, mkK(k, 32)));
          work.push_back(o);
        }
        S->inputs.push_back({nm, nullptr, 0, 32}); addC(S, mkEq(e, mkK(0, 32)));
        { auto m = std::make_shared<Model>(*S->model); m->id = newModelId(); m->v[e->a] = 0; S->model = m; }
        fr->regs[in.dst] = conc(0);
        return 1;
      }
      case B_PARAM: { std::string n = cstr(A(0)); auto it = opt.params.find(n); ret(it == opt.params.end() ? A(1) : conc((u64)it->second)); break; }
      case B_REACH: { reach[cstr(A(0))]++; break; }
      case B_FAIL: { std::string m = cstr(A(0)); assertMsgs[m]++; assertChecks++; report("assert", m, *S->model); return 0; }
      case B_ALLOWCRASH: S->allowCrash = concretize(A(0), 32) != 0; break;
      case B_CONC: { Val v = A(0); ret(conc(concretize(v, 64))); break; }
      case B_UNIQUE: { Val v = A(0); if (v.e) { u128 k = evalExpr(v.e, *S->model); std::shared_ptr<Model> m; if (feasible(mkNot(mkEq(v.e, mkK(k, v.e->w))), &m) == UNSAT) v = conc(k); } ret(v); break; }
      case B_ISSYM: ret(conc(A(0).e != nullptr)); break;
      case B_ITE: { const Val& c = A(0); if (!c.e) { Val r = c.c ? A(1) : A(2); ret(r); } else { Expr* ce = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkK(0, c.e->w))); ret(fromE(mkIte(ce, ex(A(1), 64), ex(A(2), 64)))); } break; }
      case B_PTRVALID: { Val p = A(0); u64 a = (u64)concretize(p, 64); u64 n = (u64)concretize(A(1), 64); Obj* o = S->mem.find(a); ret(conc(o && !o->freed && a - o->addr + n <= o->size)); break; }
      case B_SYMBOLIC: ret(conc(1)); break;
      case B_END: { reach["vf_end"]++; pathEnd(); return 0; }
      case B_LOG: { if (opt.verbose) { const Val& v = A(1); if (v.e) fprintf(stderr, "LOG %s sym %s (model %llu)\n", cstr(A(0)).c_str(), exprStr(v.e, 14).c_str(), (unsigned long long)evalExpr(v.e, *S->model)); else fprintf(stderr, "LOG %s %lld\n", cstr(A(0)).c_str(), (long long)(u64)v.c); } break; }
      case B_LOGS: { if (opt.verbose) fprintf(stderr, "LOGS %s\n", cstr(A(0)).c_str()); break; }
      case B_COCREATE: {
        u64 f = (u64)concretize(A(0), 64); Val arg = A(1); auto it = fnByAddr.find(f); if (it == fnByAddr.end()) { incomplete("vf_co_create: bad function"); return 0; }
        FnInfo* fi = fn(it->second); if (!fi->built) build(fi);
        int save = S->cur; S->stacks.emplace_back(); S->cur = S->stacks.size() - 1; pushFrame(fi, {arg}, -1); ret(conc(S->cur)); S->cur = save; break;
      }
      case B_COSWITCH: { u64 t = (u64)concretize(A(0), 32); if (t >= S->stacks.size() || S->stacks[t].fr.empty()) { report("assert", "switch to a finished thread", *S->model); return 0; } fr->pc++; S->cur = t; return 1; }
      case B_COSELF: ret(conc(S->cur)); break;
      case B_MALLOC: case B_NEW: case B_NEWA: {
        u64 n = (u64)concretize(A(0), 64);
        if (n > (256u << 20)) { if (in.builtin == B_MALLOC) ret(conc(0)); else { crash("abort", "allocation of " + std::to_string(n) + " bytes"); return 0; } break; }
        Obj* o = S->mem.alloc(n, OHeap, 0xBE); o->akind = in.builtin == B_MALLOC ? 1 : in.builtin == B_NEW ? 2 : 3; ret(conc(o->addr)); break;
      }
      case B_CALLOC: { u64 n = (u64)concretize(A(0), 64), k = (u64)concretize(A(1), 64); Obj* o = S->mem.alloc(n * k, OHeap, 0); o->akind = 1; ret(conc(o->addr)); break; }
      case B_REALLOC: {
        u64 p = (u64)concretize(A(0), 64), n = (u64)concretize(A(1), 64); Obj* o = S->mem.alloc(n, OHeap, 0xBE); o->akind = 1; u64 na = o->addr;
        if (p) { Obj* q = S->mem.find(p); if (!q || q->freed || q->addr != p) { report("memory", "realloc of invalid pointer", *S->model); return 0; }
          u64 k = std::min(n, q->size); memcpy(o->data, q->data, k); if (q->sym) { o->sym = (Expr**)calloc(n ? n : 1, sizeof(Expr*)); memcpy(o->sym, q->sym, k * sizeof(Expr*)); } S->mem.release(q); }
        ret(conc(na)); break;
      }
      case B_FREE: case B_DEL: case B_DELA: {
        u64 p = (u64)concretize(A(0), 64); if (!p) break; Obj* o = S->mem.find(p);
        uint8_t want = in.builtin == B_FREE ? 1 : in.builtin == B_DEL ? 2 : 3;
        if (!o || o->kind != OHeap || o->addr != p) { report("memory", "free of invalid pointer", *S->model); return 0; }
        if (o->freed) { report("memory", "double free", *S->model); return 0; }
        if (o->akind != want) { report("memory", "mismatched allocation and deallocation", *S->model); return 0; }
        S->mem.release(o); break;
      }
      case B_MEMCPY: {
        Val d = A(0), s = A(1); u64 n = (u64)concretize(A(2), 64);
        if (in.dst >= 0) ret(d);
        if (!n) break;
        if (d.e) d = conc(concretize(d, 64)); if (s.e) s = conc(concretize(s, 64));
        u64 so, dof; Expr* x; Obj* os = resolve(s, n, false, so, x, "read (copy)"); if (!os) return 0;
        Obj* od = resolve(d, n, true, dof, x, "write (copy)"); if (!od) return 0;
        // keep the source alive while the destination may be replaced
        os->rc++; od = S->mem.writable(od);
        memmove(od->data + dof, os->data + so, n);
        if (os->sym) { if (!od->sym) od->sym = (Expr**)calloc(od->size ? od->size : 1, sizeof(Expr*)); memmove(od->sym + dof, os->sym + so, n * sizeof(Expr*)); }
        else if (od->sym) memset(od->sym + dof, 0, n * sizeof(Expr*));
        decObj(os);
        break;
      }
      case B_MEMSET: {
        Val d = A(0); Val c = A(1); u64 n = (u64)concretize(A(2), 64); if (in.dst >= 0) ret(d); if (!n) break; if (d.e) d = conc(concretize(d, 64));
        u64 dof; Expr* x; Obj* od = resolve(d, n, true, dof, x, "write (set)"); if (!od) return 0; od = S->mem.writable(od);
        if (c.e) { Expr* b = mkExtract(c.e, 0, 8); for (u64 i = 0; i < n; i++) writeC(od, dof + i, 8, fromE(b)); }
        else { memset(od->data + dof, (int)c.c, n); if (od->sym) memset(od->sym + dof, 0, n * sizeof(Expr*)); }
        break;
      }
      case B_MEMCMP: case B_BCMP: {
        Val a = A(0), b = A(1); u64 n = (u64)concretize(A(2), 64); if (!n) { ret(conc(0)); break; }
        if (a.e) a = conc(concretize(a, 64)); if (b.e) b = conc(concretize(b, 64));
        u64 ao, bo; Expr* x; Obj* oa = resolve(a, n, false, ao, x, "read (compare)"); if (!oa) return 0; Obj* ob = resolve(b, n, false, bo, x, "read (compare)"); if (!ob) return 0;
        if (!oa->sym && !ob->sym) { int r = memcmp(oa->data + ao, ob->data + bo, n); ret(conc((u32)(r < 0 ? -1 : r > 0 ? 1 : 0))); break; }
        Expr* r = mkK(0, 32); Expr* ne = mkK(0, 1);
        for (u64 i = n; i-- > 0;) {
          Expr *p = byteAt(oa, ao + i), *q = byteAt(ob, bo + i); if (p == q) continue;
          if (in.builtin == B_BCMP) { ne = mkOr(mkNot(mkEq(p, q)), ne); }
          else r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkK(0xffffffffu, 32), mkK(1, 32)));
        }
        ret(fromE(in.builtin == B_BCMP ? mkZExt(ne, 32) : r)); break;
      }
      case B_ABORT: case B_TRAP: {
        std::string n = "trap"; if (auto* cb = dyn_cast<CallBase>(in.I)) if (auto* f = cb->getCalledFunction()) n = shortName(f->getName().str());
        if (n == "__assert_fail") n += ": " + cstr(A(0));
        else if (n.find("__throw_") != std::string::npos && in.args.size() >= 1 && n.find("char const*") != std::string::npos) n += ": " + cstr(A(0));
        crash("abort", n); return 0;
      }
      case B_GUARDACQ: {
        u64 off; Expr* so; Obj* o = resolve(A(0), 1, true, off, so, "guard"); if (!o) return 0; Val g = readC(o, off, 8);
        if (g.c) ret(conc(0)); else { o = S->mem.writable(o); writeC(o, off, 8, conc(1)); ret(conc(1)); } break;
      }
      case B_CTPOP: { unsigned w = in.w; const Val& a = A(0); if (!a.e) { u128 v = a.c; unsigned c = 0; while (v) { c += (unsigned)(v & 1); v >>= 1; } ret(conc(c)); } else { Expr* r = mkK(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(a.e, i, 1), w)); ret(fromE(r)); } break; }
      case B_CTLZ: { unsigned w = in.w; const Val& a = A(0); if (!a.e) { unsigned c = 0; for (unsigned i = w; i-- > 0;) { if ((a.c >> i) & 1) break; c++; } ret(conc(c)); } else { Expr* r = mkK(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a.e, i, 1), mkK(w - 1 - i, w), r); ret(fromE(r)); } break; }
      case B_CTTZ: { unsigned w = in.w; const Val& a = A(0); if (!a.e) { unsigned c = 0; for (unsigned i = 0; i < w; i++) { if ((a.c >> i) & 1) break; c++; } ret(conc(c)); } else { Expr* r = mkK(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a.e, i, 1), mkK(i, w), r); ret(fromE(r)); } break; }
      case B_BSWAP: { unsigned w = in.w; Expr* a = ex(A(0), w); Expr* r = mkExtract(a, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(a, 8 * i, 8)); ret(fromE(r)); break; }
      case B_BITREV: { unsigned w = in.w; Expr* a = ex(A(0), w); Expr* r = mkExtract(a, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(a, i, 1)); ret(fromE(r)); break; }
      case B_FSHL: case B_FSHR: {
        unsigned w = in.w; const Val& sv = A(2);
        if (!sv.e) { unsigned s = (unsigned)(sv.c % w); if (!s) { ret(in.builtin == B_FSHL ? A(0) : A(1)); break; } Expr* cc = nullptr; Expr *hi = ex(A(0), w), *lo = ex(A(1), w); unsigned k = in.builtin == B_FSHL ? w - s : s; cc = mkConcat(mkExtract(hi, 0, k), mkExtract(lo, k, w - k)); ret(fromE(cc)); }
        else { Expr* s = mkBin(UREM, sv.e, mkK(w, w)); Expr* rs = mkBin(SUB, mkK(w, w), s); Expr *hi = ex(A(0), w), *lo = ex(A(1), w); Expr* z = mkEq(s, mkK(0, w));
          if (in.builtin == B_FSHL) ret(fromE(mkIte(z, hi, mkBin(OR, mkBin(SHL, hi, s), mkBin(LSHR, lo, rs))))); else ret(fromE(mkIte(z, lo, mkBin(OR, mkBin(SHL, hi, rs), mkBin(LSHR, lo, s))))); }
        break;
      }
      case B_UADDO: case B_SADDO: case B_USUBO: case B_SSUBO: case B_UMULO: case B_SMULO: {
        unsigned w = W(0); Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr *r, *o;
        if (w > 64 && (in.builtin == B_UMULO || in.builtin == B_SMULO)) { incomplete("wide mul overflow"); return 0; }
        switch (in.builtin) {
          case B_UADDO: r = mkBin(ADD, a, b); o = mkUlt(r, a); break;
          case B_USUBO: r = mkBin(SUB, a, b); o = mkUlt(a, b); break;
          case B_SADDO: { r = mkBin(ADD, a, b); Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1), *sr = mkExtract(r, w - 1, 1); o = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))); break; }
          case B_SSUBO: { r = mkBin(SUB, a, b); Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1), *sr = mkExtract(r, w - 1, 1); o = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); break; }
          case B_UMULO: { Expr* f = mkBin(MUL, mkZExt(a, 2 * w), mkZExt(b, 2 * w)); r = mkExtract(f, 0, w); o = mkNot(mkEq(mkExtract(f, w, w), mkK(0, w))); break; }
          default: { Expr* f = mkBin(MUL, mkSExt(a, 2 * w), mkSExt(b, 2 * w)); r = mkExtract(f, 0, w); o = mkNot(mkEq(f, mkSExt(r, 2 * w))); break; }
        }
        fr->regs[in.dst] = fromE(r); fr->regs[in.dst + 1] = fromE(o); break;
      }
      case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        Op op = in.builtin == B_UMIN || in.builtin == B_UMAX ? ULT : SLT; bool mn = in.builtin == B_UMIN || in.builtin == B_SMIN;
        for (u32 i = 0; i < in.n; i++) { Expr *a = ex(VALI(in.args[0], i), in.w), *b = ex(VALI(in.args[1], i), in.w); Expr* c = mkBin(op, a, b); fr->regs[in.dst + i] = fromE(mn ? mkIte(c, a, b) : mkIte(c, b, a)); } break;
      }
      case B_ABS: { Expr* a = ex(A(0), in.w); ret(fromE(mkIte(mkBin(SLT, a, mkK(0, in.w)), mkBin(SUB, mkK(0, in.w), a), a))); break; }
      case B_UADDSAT: { Expr *a = ex(A(0), in.w), *b = ex(A(1), in.w), *r = mkBin(ADD, a, b); ret(fromE(mkIte(mkUlt(r, a), mkK(maskw(in.w), in.w), r))); break; }
      case B_USUBSAT: { Expr *a = ex(A(0), in.w), *b = ex(A(1), in.w); ret(fromE(mkIte(mkUlt(a, b), mkK(0, in.w), mkBin(SUB, a, b)))); break; }
      case B_SADDSAT: case B_SSUBSAT: { unsigned w = in.w; Expr *a = mkSExt(ex(A(0), w), w + 1), *b = mkSExt(ex(A(1), w), w + 1); Expr* r = mkBin(in.builtin == B_SADDSAT ? ADD : SUB, a, b); Expr* mx = mkK(maskw(w - 1), w + 1); Expr* mn = mkSExt(mkK((u128)1 << (w - 1), w), w + 1); Expr* cl = mkIte(mkBin(SLT, mx, r), mx, mkIte(mkBin(SLT, r, mn), mn, r)); ret(fromE(mkExtract(cl, 0, w))); break; }
      case B_OBJSIZE: { bool mn = in.args.size() > 1 && A(1).c; ret(conc(mn ? 0 : maskw(in.w))); break; }
      case B_FABS: ret(fromE(mkF(FABS, in.w, ex(A(0), in.w)))); break;
      case B_FLOOR: ret(fromE(mkF(FFLOOR, in.w, ex(A(0), in.w)))); break;
      case B_CEIL: ret(fromE(mkF(FCEIL, in.w, ex(A(0), in.w)))); break;
      case B_TRUNC: ret(fromE(mkF(FTRUNC, in.w, ex(A(0), in.w)))); break;
      case B_ROUND: ret(fromE(mkF(FROUND, in.w, ex(A(0), in.w)))); break;
      case B_SQRT: ret(fromE(mkF(FSQRT, in.w, ex(A(0), in.w)))); break;
      case B_FMULADD: ret(fromE(mkF(FADD, in.w, mkF(FMUL, in.w, ex(A(0), in.w), ex(A(1), in.w)), ex(A(2), in.w)))); break;
      case B_FMIN: case B_FMAX: { Expr *a = ex(A(0), in.w), *b = ex(A(1), in.w); Expr* lt = mkF(FOLT, 1, a, b); Expr* bn = mkF(FUNO, 1, b, b); Expr* r = in.builtin == B_FMIN ? mkIte(mkOr(lt, bn), a, b) : mkIte(mkOr(mkF(FOLT, 1, b, a), bn), a, b); ret(fromE(r)); break; }
      case B_LIBM1: case B_LIBM2: {
        if (in.w != 64) { incomplete("libm on non-double"); return 0; }
        if (A(0).e || (in.builtin == B_LIBM2 && A(1).e)) { incomplete("libm function on a symbolic value"); return 0; }
        std::string n = cast<CallBase>(in.I)->getCalledFunction()->getName().str(); if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
        u64 xb = (u64)A(0).c; double x; memcpy(&x, &xb, 8); double y = 0; if (in.builtin == B_LIBM2) { u64 yb = (u64)A(1).c; memcpy(&y, &yb, 8); } double r = 0;
        if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x); else if (n == "lgamma") r = lgamma(x); else if (n == "expm1") r = expm1(x); else if (n == "log1p") r = log1p(x); else if (n == "exp2") r = exp2(x); else if (n == "cbrt") r = cbrt(x); else if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y); else { incomplete("libm " + n); return 0; }
        u64 rb; memcpy(&rb, &r, 8); ret(conc(rb)); break;
      }
      default: incomplete(sfmt("unsupported builtin %d", in.builtin)); return 0;
    }
    fr->pc++;
    return 1;
  }
  // Variables are shared between paths: the k-th input created on a path under the same name and width is the same variable.
  std::map<std::pair<std::string, unsigned>, Expr*> varPool;
  Expr* freshVar(const std::string& n, unsigned w) {
    // occurrence index on this path
    std::string key = n + "#" + std::to_string(S->inputs.size());
    auto& e = varPool[{key, w}]; if (!e) e = mkVar(n, w); return e;
  }

  int main() {
    SMDiagnostic err; M = parseIRFile(opt.bc, err, ctx);
    if (!M) { err.print("symex", errs()); return 3; }
    DL.reset(new DataLayout(M.get()));
    solver.timeoutMs = opt.solverMs; solver.preferInt = opt.preferInt;
    S = new State; S->id = ++g_stateId; S->model = std::make_shared<Model>(); S->model->id = newModelId();
    u64 fa = 0x10000;
    for (auto& f : *M) { gaddr[&f] = fa; fnByAddr[fa] = &f; fa += 16; }
    for (auto& g : M->globals()) {
      if (g.getName().startswith("llvm.")) { gaddr[&g] = 0; continue; }
      u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration() && sz < 8) sz = 8;
      Obj* o = S->mem.alloc(sz, OGlobal, 0); gaddr[&g] = o->addr;
      if (g.isDeclaration() && g.getName() == "__libc_single_threaded") o->data[0] = 1;
    }
    for (auto& g : M->globals()) if (g.hasInitializer() && gaddr[&g]) { Obj* o = S->mem.find(gaddr[&g]); initMem(g.getInitializer(), o->data, o->size); if (g.isConstant()) o->ro = true; }
    Function* E = M->getFunction(opt.entry);
    if (!E) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
    tStart = now();
    S->stacks.resize(1);
    // global constructors, then the entry
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* gv = M->getNamedGlobal("llvm.global_ctors")) if (gv->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer()))
      for (auto& op : ca->operands()) if (auto* cs = dyn_cast<ConstantStruct>(op)) if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    pushFrame(fn(E), {}, -1);
    for (size_t i = ctors.size(); i-- > 0;) pushFrame(fn(ctors[i].second), {}, -1);
    work.push_back(S);
    while (!work.empty() && !stopAll) {
      S = work.back(); work.pop_back(); paths++;
      runState(); delete S; S = nullptr;
      if (paths >= opt.maxPaths && !work.empty()) { incompletes["path limit"]++; break; }
    }
    writeOut();
    return viols.empty() ? (incompletes.empty() ? 0 : 2) : 1;
  }
  static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) r += sfmt("\\u%04x", c); else r += c; } return r + "\""; }
  void writeOut() {
    std::string o = "{\n";
    auto kv = [&](const char* k, double v, bool comma = true) { o += sfmt("  \"%s\": %.17g%s\n", k, v, comma ? "," : ""); };
    kv("paths", endedQuiet); kv("states", paths); kv("forks", forks); kv("steps", steps); kv("max_depth", maxDepth); kv("assumed_out", assumedOut);
    kv("assert_checks", assertChecks); kv("assert_proved_by_solver", assertProved); kv("assert_concrete", assertConcrete); kv("safety_checks_symbolic", ubChecks);
    kv("queries", solver.st.queries); kv("sat", solver.st.sat); kv("unsat", solver.st.unsat); kv("unknown", solver.st.unknown); kv("cache_hits", solver.st.cacheHits); kv("int_queries", solver.st.intQueries); kv("hard_queries", solver.st.hardQueries);
    kv("solver_s", solver.st.time); kv("max_query_s", solver.st.maxTime); kv("wall_s", now() - tStart); kv("exprs", exprCount());
    kv("vars", g_vars.size());
    auto mp = [&](const char* k, std::map<std::string, u64>& m) { o += sfmt("  \"%s\": {", k); bool f = true; for (auto& p : m) { o += (f ? "" : ", ") + js(p.first) + ": " + std::to_string(p.second); f = false; } o += "},\n"; };
    mp("reach", reach); mp("asserts", assertMsgs); mp("incomplete", incompletes); mp("allowed_crashes", allowedCrash);
    o += "  \"samples\": ["; for (size_t i = 0; i < sampleInputs.size(); i++) o += (i ? ", " : "") + js(sampleInputs[i]); o += "],\n";
    // functions of the code under test that were executed, with block coverage
    o += "  \"functions\": ["; bool first = true;
    for (auto& p : fns) {
      FnInfo* f = p.second.get(); if (!f->built || !f->calls) continue;
      auto* sp = f->F->getSubprogram(); if (!sp) continue;
      std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = (sp->getDirectory() + "/" + file).str();
      if (file.rfind(opt.srcPrefix, 0) != 0) continue;
      u64 seen = 0; for (bool b : f->blockSeen) seen += b;
      o += (first ? "\n    " : ",\n    ") + sfmt("{\"fn\": %s, \"file\": %s, \"calls\": %llu, \"blocks\": %llu, \"seen\": %llu}", js(shortName(f->name)).c_str(), js(file).c_str(), (unsigned long long)f->calls, (unsigned long long)f->blockSeen.size(), (unsigned long long)seen);
      first = false;
    }
    o += "],\n  \"violations\": [";
    for (size_t i = 0; i < viols.size(); i++) {
      auto& v = viols[i]; o += std::string(i ? "," : "") + "\n    {\"kind\": " + js(v.kind) + ", \"msg\": " + js(v.msg) + ", \"loc\": " + js(v.loc) + ", \"trace\": [";
      for (size_t j = 0; j < v.trace.size(); j++) o += (j ? ", " : "") + js(v.trace[j]);
      o += "], \"inputs\": ["; for (size_t j = 0; j < v.inputs.size(); j++) o += (j ? ", " : "") + js(v.inputs[j]); o += "]}";
    }
    o += "]\n}\n";
    if (opt.out.empty()) fputs(o.c_str(), stdout); else { std::ofstream f(opt.out); f << o; }
  }
};

int runEngine(const Options& o) { Exec* e = new Exec(o); return e->main(); }
}  // namespace sx

int main(int argc, char** argv) {
  sx::Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") o.out = nx(); else if (a == "--entry") o.entry = nx(); else if (a == "--timeout") o.timeout = atof(nx().c_str());
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); o.params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
    else if (a == "--max-steps") o.maxStepsPath = atoll(nx().c_str()); else if (a == "--max-paths") o.maxPaths = atoll(nx().c_str()); else if (a == "--solver-ms") o.solverMs = atoi(nx().c_str());
    else if (a == "--int") o.preferInt = true; else if (a == "--no-mod") sx::gModRewrite = false; else if (a == "--max-violations") o.maxViolations = atoi(nx().c_str()); else if (a == "--src-prefix") o.srcPrefix = nx(); else if (a == "-v") o.verbose = true;
    else o.bc = a;
  }
  struct rlimit rl; if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 29) && !getenv("SX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ul << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  return sx::runEngine(o);
}
