// symx: symbolic executor for LLVM-18 bitcode with z3, symbolic threads/schedules, memory-safety and race checking.
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

using namespace llvm;
typedef std::vector<uint64_t> Model;
typedef std::shared_ptr<Model> ModelP;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static std::string optEntry = "harness", optOut, optTmp;
static std::map<std::string, long> params;
static double optTimeout = 800, optQueryTimeout = 30; static double optGrace = 0;
static int optWorkers = 8, optPreempt = 0, optMaxViol = 3;
static bool optRace = false, optVerbose = false, optTrace = false, optBfs = false;
static long optMaxInstr = 60000000;
static std::vector<std::pair<std::string, uint64_t>> replayVals; static bool optReplay = false; // concrete re-execution
static std::vector<int> replaySched;
static double t0;

// ---------------------------------------------------------------- statistics (per process)
struct Stats {
  uint64_t paths = 0, pathsDone = 0, pathsAssumed = 0, instrs = 0, forks = 0, queries = 0, cacheHits = 0, modelHits = 0, unknown = 0, checks = 0, checksSym = 0, sat = 0, unsat = 0, schedPoints = 0, errors = 0, symVars = 0, solverObl = 0;
  double solverTime = 0; uint64_t maxThreads = 0;
} S;
static std::map<std::string, uint64_t> covers;
static std::set<std::string> usedFuncs;
static std::map<std::string, uint64_t> checkLabels; // label -> times decided
static std::vector<std::string> errorsSeen;
static std::vector<std::string> samples;
struct Violation { std::string kind, label, msg, where, stack, json; };
static std::vector<Violation> violations; static std::set<std::string> violKeys;

struct SharedCtl { volatile double violAt; volatile int active; volatile int stop; volatile int started, finished; volatile int viol; volatile uint64_t paths; volatile int lock; };
static SharedCtl *ctl;

// ---------------------------------------------------------------- compiled IR
struct Val { uint64_t c; Expr *e; };
static inline Val VC(uint64_t c) { return Val{c, nullptr}; }
typedef int32_t Opd; // >=0 register, <0 constant pool index ~x

enum KOp : uint8_t {
  K_BIN, K_ICMP, K_FCMP, K_SELECT, K_CAST_TRUNC, K_CAST_ZEXT, K_CAST_SEXT, K_COPY, K_LOAD, K_STORE, K_ALLOCA, K_GEP,
  K_BR, K_CBR, K_SWITCH, K_RET, K_CALL, K_UNREACH, K_LANDINGPAD, K_RESUME, K_RMW, K_CMPXCHG, K_FENCE, K_UNSUP, K_NOP, K_FBIN, K_FCAST,
  K_LEAVE
};
enum Intr : uint16_t {
  I_NONE, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_BSWAP, I_CTPOP, I_CTLZ, I_CTTZ, I_FSHL, I_FSHR,
  I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_USUBSAT, I_UADDSAT, I_OBJSIZE, I_ISCONST, I_TYPEIDFOR, I_TLSADDR, I_EXPECT, I_NOP, I_TRAP, I_IDENT, I_STACKSAVE, I_PTRMASK, I_BITREV,
  // libc-level builtins
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DELETE, B_DELETEARR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN,
  B_CXA_THROW, B_CXA_ALLOC_EXC, B_CXA_BEGIN_CATCH, B_CXA_END_CATCH, B_CXA_RETHROW, B_TERMINATE, B_ABORT, B_PURE, B_MEMCHR,
  B_THROWSTD,
  // sx_ intrinsics
  X_SYMBOLIC, X_U8, X_U16, X_U32, X_U64, X_RANGE, X_CHOOSE, X_CONCRETIZE, X_ASSUME, X_CHECK, X_FAIL, X_COVER, X_NOTE, X_PARAM, X_THREAD_CREATE, X_SELF,
  X_BLOCK, X_WAKE, X_SLEEP, X_SCHED, X_EXIT, X_HB_ACQ, X_HB_REL, X_HEAP_LIVE, X_LEAKS, X_LEAKS_ALL, X_IN_REPO, X_THREADS_LIVE, X_EXEMPT, X_NOTEV, X_IS_FREED, X_MAYBE, X_CHECKQ, X_MUST, X_IDLE, X_NTHREADS, X_RACEON, X_PREEMPT, X_OWNED_LIVE, X_END, X_IS_SYM, X_BLOCKED_ON
};
struct Edge { int target; std::vector<std::pair<int, Opd>> copies; };
struct KFunc;
struct Inst {
  uint8_t op, sub, w, w2; uint16_t intr; int dst, ndst; Opd a, b, c;
  std::vector<Opd> ops; std::vector<uint8_t> lw; // leaf widths (load/store/ret/select)
  std::vector<uint32_t> loff;                    // leaf offsets (load/store)
  std::vector<std::pair<Opd, int64_t>> gepIdx; std::vector<uint8_t> gepW; int64_t gepOff;
  std::vector<Edge> edges; std::vector<uint64_t> cases;
  KFunc *callee; std::vector<std::pair<int, uint64_t>> byval; // (flattened arg position, size)
  int argPosNormal, unwindEdge; // invoke: edges[0]=normal edges[1]=unwind
  bool isInvoke, atomic, ordAcq, ordRel, noHalt; uint64_t size;
  std::vector<int64_t> clauses; bool cleanup; // landingpad: typeinfo addresses (0 = catch-all, -1 = filter)
  const Instruction *src; uint32_t site;
};
struct KFunc {
  Function *F; bool compiled = false; std::vector<Inst> code; int nregs = 0; std::vector<int> argRegs; std::vector<uint8_t> argW;
  std::string name; uint8_t origin = 0; /* 0 library/inherit, 1 repo, 2 support */ uint64_t addr = 0; uint16_t intr = 0; bool external = false, used = false;
};
static LLVMContext Ctx; static std::unique_ptr<Module> Mod; static const DataLayout *DL;
static std::unordered_map<const Function *, KFunc *> kfuncs; static std::unordered_map<uint64_t, KFunc *> funcAt; // by address
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::vector<Val> constPool; static std::map<uint64_t, int> constIdx;
static std::vector<std::string> siteStr; // site id -> description (lazy)
static std::vector<const Instruction *> siteInst;
static std::set<uint64_t> guardAddrs;

// ---------------------------------------------------------------- guest state
struct Frame {
  int rc = 1; KFunc *f; int pc; std::vector<Val> regs; std::vector<uint32_t> allocas; const Inst *call = nullptr; bool support, exempt; uint64_t excPtr = 0, excType = 0;
};
enum { T_RUN, T_BLOCK, T_SLEEP, T_DONE };
struct Thread { std::vector<Frame *> st; int status = T_RUN; uint64_t key = 0; std::vector<uint32_t> vc; int sleeps = 0; uint64_t excPtr = 0, excType = 0; std::vector<std::pair<uint64_t,uint64_t>> caught; bool uninterrupt = false; uint32_t lastPick = 0; };
struct PCNode { Expr *e; PCNode *prev; };
struct LNode { std::string s; uint64_t v; int kind; uint32_t ord; uint8_t w; LNode *prev; }; // trace log: kind 0 symbol, 1 sched, 2 note, 3 note with value expr
struct State {
  Trie mem; std::vector<Thread> th; int cur = 0; PCNode *pc = nullptr; int npc = 0; ModelP model; uint32_t nextSlot = 1; uint64_t allocSeq = 0;
  LNode *log = nullptr; uint32_t nsym = 0; int preempts = 0, idle = 0; uint64_t instrs = 0; std::map<uint64_t, std::vector<uint32_t>> sync;
  std::map<std::pair<int, const GlobalVariable *>, uint64_t> tls; std::map<uint64_t, uint64_t> excTypes; uint64_t liveRepo = 0; size_t replayPos = 0, replaySchedPos = 0; bool raceOn = true; int preemptBound = -1; int nsched = 0;
  State() {}
  State(const State &o) : mem(o.mem), th(o.th), cur(o.cur), pc(o.pc), npc(o.npc), model(o.model), nextSlot(o.nextSlot), allocSeq(o.allocSeq), log(o.log), nsym(o.nsym), preempts(o.preempts), idle(o.idle), instrs(o.instrs), sync(o.sync), tls(o.tls), excTypes(o.excTypes), liveRepo(o.liveRepo), replayPos(o.replayPos), replaySchedPos(o.replaySchedPos), raceOn(o.raceOn), preemptBound(o.preemptBound), nsched(o.nsched) {
    for (auto &t : th) for (Frame *f : t.st) f->rc++;
  }
  ~State() { for (auto &t : th) for (Frame *f : t.st) if (--f->rc == 0) delete f; }
  Thread &T() { return th[cur]; }
  Frame &top() { // writable top frame of current thread
    Frame *&f = th[cur].st.back();
    if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; }
    return *f;
  }
  bool inSupport() { return th[cur].st.empty() ? true : th[cur].st.back()->support; }
  bool exempt() { return th[cur].st.empty() ? true : th[cur].st.back()->exempt; }
};
static std::deque<State *> work;
struct PathEnd {}; // thrown to stop the current path

static KFunc *getK(const Function *F);
static void compile(KFunc *k);
[[noreturn]] static void fatal(const std::string &m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(3); }

static std::string demang(const std::string &n) { return llvm::demangle(n); }
static std::string whereStr(const Instruction *I) {
  if (!I) return "?";
  std::string s;
  if (const DILocation *L = I->getDebugLoc().get()) {
    const DILocation *o = L;
    while (o) { if (!s.empty()) s += " < "; std::string f = o->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
      s += f + ":" + std::to_string(o->getLine()); if (auto *sp = o->getScope()->getSubprogram()) s += "(" + sp->getName().str() + ")"; o = o->getInlinedAt(); }
  } else s = "?";
  return s;
}
static std::string stackStr(State &s, int tid) {
  std::string r;
  for (int i = (int)s.th[tid].st.size() - 1, n = 0; i >= 0 && n < 24; i--, n++) {
    Frame *f = s.th[tid].st[i]; int pc = f->pc; if (pc > 0 && i != (int)s.th[tid].st.size() - 1) pc--;
    r += "    #" + std::to_string(n) + " " + demang(f->f->name).substr(0, 120) + "  " + (f->f->compiled && pc < (int)f->f->code.size() ? whereStr(f->f->code[pc].src) : "?") + "\n";
  }
  return r;
}
static std::string jsonEsc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static std::string traceJson(State &s, const Model &m) {
  std::vector<LNode *> l; for (LNode *n = s.log; n; n = n->prev) l.push_back(n);
  std::string r = "\"inputs\":["; bool first = true;
  for (int i = l.size() - 1; i >= 0; i--) if (l[i]->kind == 0) { uint64_t v = l[i]->ord < m.size() ? m[l[i]->ord] & maskw(l[i]->w) : 0; r += std::string(first ? "" : ",") + "[\"" + jsonEsc(l[i]->s) + "\"," + std::to_string(v) + "]"; first = false; }
  r += "],\"schedule\":["; first = true;
  for (int i = l.size() - 1; i >= 0; i--) if (l[i]->kind == 1) { r += std::string(first ? "" : ",") + std::to_string(l[i]->v); first = false; }
  r += "],\"notes\":["; first = true;
  for (int i = l.size() - 1; i >= 0; i--) if (l[i]->kind >= 2) {
    std::string t = l[i]->s; if (l[i]->kind == 3) { Expr *e = (Expr *)l[i]->v; t += "=" + std::to_string(e ? evalExpr(e, m) : 0); } else if (l[i]->kind == 4) t += "=" + std::to_string(l[i]->v);
    r += std::string(first ? "" : ",") + "\"" + jsonEsc(t) + "\""; first = false; }
  return r + "]";
}

// ---------------------------------------------------------------- solver
static Z3_context zc; static Z3_solver zs; static Z3_sort zsort[65];
static Z3_ast zInc(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static void z3init() {
  Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); zc = Z3_mk_context_rc(c); Z3_del_config(c);
  for (int i = 1; i <= 64; i++) { zsort[i] = Z3_mk_bv_sort(zc, i); Z3_inc_ref(zc, Z3_sort_to_ast(zc, zsort[i])); }
  Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
  zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)(optQueryTimeout * 1000));
  Z3_solver_set_params(zc, zs, p);
}
static Z3_ast toZ(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r, one = nullptr;
  auto b2bv = [&](Z3_ast b) { return Z3_mk_ite(zc, zInc(b), zInc(Z3_mk_unsigned_int64(zc, 1, zsort[1])), zInc(Z3_mk_unsigned_int64(zc, 0, zsort[1]))); };
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(zc, e->c, zsort[e->w]); break;
  case E_SYM: { char n[40]; snprintf(n, 40, "v%llu_%d%s", (unsigned long long)e->c, e->w, e->uninit ? (e->uninit == 2 ? "p" : "u") : ""); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), zsort[e->w]); break; }
  default: {
    Z3_ast a = toZ(e->k[0]), b = e->k[1] ? toZ(e->k[1]) : nullptr, d = e->k[2] ? toZ(e->k[2]) : nullptr;
    switch (e->op) {
    case E_ADD: r = Z3_mk_bvadd(zc, a, b); break; case E_SUB: r = Z3_mk_bvsub(zc, a, b); break; case E_MUL: r = Z3_mk_bvmul(zc, a, b); break;
    case E_UDIV: r = Z3_mk_bvudiv(zc, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break; case E_UREM: r = Z3_mk_bvurem(zc, a, b); break; case E_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
    case E_AND: r = Z3_mk_bvand(zc, a, b); break; case E_OR: r = Z3_mk_bvor(zc, a, b); break; case E_XOR: r = Z3_mk_bvxor(zc, a, b); break;
    case E_SHL: r = Z3_mk_bvshl(zc, a, b); break; case E_LSHR: r = Z3_mk_bvlshr(zc, a, b); break; case E_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
    case E_EQ: r = b2bv(Z3_mk_eq(zc, a, b)); break; case E_ULT: r = b2bv(Z3_mk_bvult(zc, a, b)); break; case E_ULE: r = b2bv(Z3_mk_bvule(zc, a, b)); break;
    case E_SLT: r = b2bv(Z3_mk_bvslt(zc, a, b)); break; case E_SLE: r = b2bv(Z3_mk_bvsle(zc, a, b)); break;
    case E_ITE: r = Z3_mk_ite(zc, zInc(Z3_mk_eq(zc, a, zInc(Z3_mk_unsigned_int64(zc, 1, zsort[1])))), b, d); break;
    case E_CONCAT: r = Z3_mk_concat(zc, a, b); break;
    case E_EXTRACT: r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, a); break;
    case E_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->k[0]->w, a); break;
    case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->k[0]->w, a); break;
    default: abort();
    }
  }
  }
  (void)one; e->z3 = zInc(r); return r;
}
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static bool hasDiv(Expr *e) { // wide division or remainder: decided faster over the integers
  static std::unordered_map<Expr *, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = (e->op == E_UDIV || e->op == E_SDIV || e->op == E_UREM || e->op == E_SREM) && e->w >= 24; for (int i = 0; i < 3 && !r; i++) if (e->k[i] && !e->k[i]->syms->empty()) r = hasDiv(e->k[i]);
  return memo[e] = r;
}
static int cvc5Int(const std::vector<Expr *> &cs, QRes &q) { // the assertions are in zs; -1: no answer
  std::string base = optTmp + "/int." + std::to_string(getpid()), in = base + ".smt2", out = base + ".out";
  FILE *f = fopen(in.c_str(), "w"); if (!f) return -1;
  fprintf(f, "(set-option :produce-models true)\n(set-logic QF_BV)\n%s\n(check-sat)\n(get-model)\n", Z3_solver_to_string(zc, zs)); fclose(f);
  int rc = system(("cvc5 --solve-bv-as-int=sum --tlimit=" + std::to_string((int)(optQueryTimeout * 1000)) + " " + in + " >" + out + " 2>/dev/null").c_str()); (void)rc;
  std::string t; if ((f = fopen(out.c_str(), "r"))) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); }
  if (getenv("SX_KEEP") && t.compare(0, 5, "unsat") && t.compare(0, 3, "sat")) { static int k; rename(in.c_str(), (std::string(getenv("SX_KEEP")) + std::to_string(getpid()) + "_" + std::to_string(k++) + ".smt2").c_str()); }
  unlink(in.c_str()); unlink(out.c_str());
  if (t.compare(0, 5, "unsat") == 0) return 0;
  if (t.compare(0, 3, "sat") != 0) return -1;
  Model m; for (size_t p = 0; (p = t.find("(define-fun v", p)) != std::string::npos;) {
    p += 13; uint32_t id = strtoul(t.c_str() + p, nullptr, 10); size_t h = t.find('#', p); if (h == std::string::npos) break;
    uint64_t v = t[h + 1] == 'b' ? strtoull(t.c_str() + h + 2, nullptr, 2) : strtoull(t.c_str() + h + 2, nullptr, 16); q.vals.push_back({id, v}); if (m.size() <= id) m.resize(id + 1, 0); m[id] = v; }
  for (Expr *e : cs) if (!evalExpr(e, m)) { q.vals.clear(); return -1; }
  return 1;
}
static std::unordered_map<std::string, QRes> qcache;
static std::deque<ModelP> recent;
// 1 sat, 0 unsat, -1 unknown; on sat fills out
static int solveSet(std::vector<Expr *> &cs, const Model &base, ModelP *out) {
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key; key.reserve(cs.size() * 4); for (Expr *e : cs) key.append((char *)&e->id, 4);
  auto mk = [&](const std::vector<std::pair<uint32_t, uint64_t>> &vals) { if (!out) return; ModelP m = std::make_shared<Model>(base); for (auto &v : vals) { if (m->size() <= v.first) m->resize(v.first + 1, 0); (*m)[v.first] = v.second; } *out = m; };
  auto it = qcache.find(key);
  if (it != qcache.end()) { S.cacheHits++; if (it->second.r == 1) mk(it->second.vals); return it->second.r; }
  std::vector<uint32_t> syms; for (Expr *e : cs) { std::vector<uint32_t> u; std::set_union(syms.begin(), syms.end(), e->syms->begin(), e->syms->end(), std::back_inserter(u)); syms.swap(u); }
  for (auto &m : recent) {
    bool ok = true; for (Expr *e : cs) if (!evalExpr(e, *m)) { ok = false; break; }
    if (ok) { S.modelHits++; QRes q; q.r = 1; for (uint32_t y : syms) q.vals.push_back({y, y < m->size() ? (*m)[y] : 0}); mk(q.vals); qcache[key] = q; return 1; }
  }
  double t = now(); S.queries++;
  Z3_solver_push(zc, zs); for (Expr *e : cs) Z3_solver_assert(zc, zs, zInc(Z3_mk_eq(zc, toZ(e), toZ(eC(1, 1)))));
  QRes q; q.r = -1; for (Expr *e : cs) if (hasDiv(e)) { q.r = cvc5Int(cs, q); break; }
  if (q.r == 1) { S.sat++; ModelP loc, *o = out ? out : &loc; std::swap(out, o); mk(q.vals); recent.push_front(*out); if (recent.size() > 24) recent.pop_back(); Z3_solver_pop(zc, zs, 1); S.solverTime += now() - t; qcache[key] = q; return 1; }
  Z3_lbool r = q.r == 0 ? Z3_L_FALSE : Z3_solver_check(zc, zs); q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (q.r == 1) {
    S.sat++; Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
    std::set<Expr *> seen; std::vector<Expr *> st(cs.begin(), cs.end());
    while (!st.empty()) { Expr *e = st.back(); st.pop_back(); if (!e || e->syms->empty() || !seen.insert(e).second) continue;
      if (e->op == E_SYM) { Z3_ast v; uint64_t x = 0; if (Z3_model_eval(zc, m, toZ(e), true, &v)) { Z3_inc_ref(zc, v); Z3_get_numeral_uint64(zc, v, &x); Z3_dec_ref(zc, v); } q.vals.push_back({(uint32_t)e->c, x}); }
      else for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]); }
    Z3_model_dec_ref(zc, m); ModelP tmp; ModelP *o = out; ModelP loc; if (!o) o = &loc; std::swap(out, o); mk(q.vals); recent.push_front(*out); if (recent.size() > 24) recent.pop_back();
  } else if (q.r == 0) S.unsat++; else S.unknown++;
  Z3_solver_pop(zc, zs, 1); S.solverTime += now() - t;
  if (q.r >= 0) qcache[key] = q;
  return q.r;
}
static int solve(State &s, Expr *cond, ModelP *out) {
  if (isC(cond)) { if (cond->c && out) *out = s.model; return cond->c ? 1 : 0; }
  std::vector<Expr *> all; for (PCNode *n = s.pc; n; n = n->prev) all.push_back(n->e);
  static std::vector<uint8_t> mark; mark.assign(s.nsym + 1, 0); for (uint32_t y : *cond->syms) { if (y >= mark.size()) mark.resize(y + 1, 0); mark[y] = 1; }
  std::vector<Expr *> cs{cond}; std::vector<uint8_t> used(all.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < all.size(); i++) if (!used[i]) { bool hit = false; for (uint32_t y : *all[i]->syms) if (mark[y]) { hit = true; break; } if (hit) { used[i] = 1; cs.push_back(all[i]); for (uint32_t y : *all[i]->syms) if (!mark[y]) { mark[y] = 1; ch = true; } } } }
  int r = solveSet(cs, *s.model, out);
  if (r == 1 && out && optVerbose) for (PCNode *n = s.pc; n; n = n->prev) if (!evalExpr(n->e, **out)) fatal("internal: model does not satisfy the path condition");
  return r;
}
static void addPC(State &s, Expr *e) { if (isC(e)) return; if (e->op == E_AND && e->w == 1) { addPC(s, e->k[0]); addPC(s, e->k[1]); return; } for (PCNode *n = s.pc; n; n = n->prev) if (n->e == e) return; s.pc = new PCNode{e, s.pc}; s.npc++; }

// ---------------------------------------------------------------- reporting
[[noreturn]] static void endPath() { throw PathEnd(); }
static void pathError(State &s, const std::string &m) { // inconclusive
  S.errors++; if (errorsSeen.size() < 20) { std::string t = m + "\n" + stackStr(s, s.cur); for (auto &e : errorsSeen) if (e == t) return; errorsSeen.push_back(t); }
}
[[noreturn]] static void abortPath(State &s, const std::string &m) { pathError(s, m); endPath(); }
static void report(State &s, const char *kind, const std::string &label, const std::string &msg, const Model &m) {
  std::string where;
  // innermost repo frame
  for (int i = (int)s.th[s.cur].st.size() - 1; i >= 0; i--) { Frame *f = s.th[s.cur].st[i]; if (f->f->origin == 1) { where = demang(f->f->name) + " " + whereStr(f->f->code[std::max(0, i + 1 == (int)s.th[s.cur].st.size() ? f->pc : f->pc - 1)].src); break; } }
  std::string key = std::string(kind) + "|" + label + "|" + (label.empty() ? where : "");
  if (!violKeys.insert(key).second) return;
  if ((int)violations.size() >= optMaxViol) { ctl->stop = 1; return; }
  Violation v; v.kind = kind; v.label = label; v.msg = msg; v.where = where;
  for (size_t t = 0; t < s.th.size(); t++) if (!s.th[t].st.empty()) v.stack += "  thread " + std::to_string(t) + (t == (size_t)s.cur ? " (current)" : "") + ":\n" + stackStr(s, t);
  v.json = traceJson(s, m); violations.push_back(v); __sync_fetch_and_add(&ctl->viol, 1); if (!ctl->violAt) ctl->violAt = now();
  if (optVerbose) fprintf(stderr, "VIOLATION kind=%s label=%s %s\n at %s\n%s %s\n", kind, label.c_str(), msg.c_str(), where.c_str(), v.stack.c_str(), v.json.c_str());
  if ((int)violations.size() >= optMaxViol) ctl->stop = 1;
}
[[noreturn]] static void fault(State &s, const char *kind, const std::string &msg) { report(s, kind, "", msg, *s.model); endPath(); }

// ---------------------------------------------------------------- forking
static State *forkState(State &s) { S.forks++; S.paths++; return new State(s); }
static void logSym(State &s, const std::string &n, uint32_t ord, uint8_t w) { s.log = new LNode{n, 0, 0, ord, w, s.log}; }
static void note(State &s, const std::string &n) { s.log = new LNode{n, 0, 2, 0, 0, s.log}; }
static Expr *freshSym(State &s, const std::string &name, unsigned w, int uninit = 0) {
  uint32_t ord = s.nsym++; S.symVars++; Expr *e = EP.get(E_SYM, w, ord, 0, 0, 0, uninit); 
  ModelP m = s.model.use_count() == 1 ? s.model : std::make_shared<Model>(*s.model); if (m->size() <= ord) m->resize(ord + 1, 0); (*m)[ord] = 0; s.model = m;
  if (!uninit) logSym(s, name, ord, w);
  return e;
}
static void uninitCheck(State &s, Expr *cond) { // cond may take both values: does it do so because of uninitialised memory alone?
  if (!cond->uninit || s.inSupport()) return;
  // rename uninitialised symbols apart
  std::unordered_map<Expr *, Expr *> memo;
  std::function<Expr *(Expr *)> ren = [&](Expr *e) -> Expr * {
    if (!e->uninit) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; Expr *r;
    if (e->op == E_SYM) r = EP.get(E_SYM, e->w, e->c + 1000000, 0, 0, 0, 2);
    else switch (e->op) {
      case E_ITE: r = eIte(ren(e->k[0]), ren(e->k[1]), ren(e->k[2])); break; case E_CONCAT: r = eConcat(ren(e->k[0]), ren(e->k[1])); break;
      case E_EXTRACT: r = eExtract(ren(e->k[0]), e->c, e->w); break; case E_ZEXT: r = eZext(ren(e->k[0]), e->w); break; case E_SEXT: r = eSext(ren(e->k[0]), e->w); break;
      default: r = eBin(e->op, ren(e->k[0]), ren(e->k[1])); }
    return memo[e] = r;
  };
  std::vector<Expr *> cs; for (PCNode *n = s.pc; n; n = n->prev) { cs.push_back(n->e); if (n->e->uninit) cs.push_back(ren(n->e)); }
  Expr *d = eNot(eBin(E_EQ, cond, ren(cond))); if (isC(d) && !d->c) return; cs.push_back(d);
  ModelP m; if (solveSet(cs, *s.model, &m) == 1) { m->resize(std::min<size_t>(m->size(), s.nsym)); report(s, "uninit", "", "control flow depends on uninitialised memory", *m); endPath(); }
}
// returns the truth value followed by the current state; pushes the other one if feasible
static bool decide(State &s, Expr *cond) {
  if (isC(cond)) return cond->c;
  bool v = evalExpr(cond, *s.model); Expr *mine = v ? cond : eNot(cond), *oth = v ? eNot(cond) : cond; ModelP m;
  int r = solve(s, oth, &m);
  if (r < 0) pathError(s, "solver: unknown/timeout");
  if (r == 1) { uninitCheck(s, cond); }
  return r == 1 ? (addPC(s, mine), v) : v;
}
struct Forked { State *o; bool v; };
static int known(State &s, Expr *cond) { // syntactically decided by the path condition: 1 true, 0 false, -1 unknown
  Expr *nc = eNot(cond); for (PCNode *n = s.pc; n; n = n->prev) { if (n->e == cond) return 1; if (n->e == nc) return 0; } return -1;
}
static Forked branch(State &s, Expr *cond) {
  if (isC(cond)) return {nullptr, (bool)cond->c};
  if (int k = known(s, cond); k >= 0) return {nullptr, (bool)k};
  bool v = evalExpr(cond, *s.model); Expr *mine = v ? cond : eNot(cond), *oth = v ? eNot(cond) : cond; ModelP m;
  int r = solve(s, oth, &m);
  if (r < 0) { pathError(s, "solver: unknown/timeout"); return {nullptr, v}; }
  if (r == 0) return {nullptr, v};
  uninitCheck(s, cond);
  State *o = forkState(s); addPC(*o, oth); o->model = m; addPC(s, mine); return {o, v};
}
static void push(State *s) { work.push_back(s); }

static inline Val opv(Frame &f, Opd o) { return o >= 0 ? f.regs[o] : constPool[~o]; }
static inline Expr *ex(Val v, unsigned w) { return v.e ? v.e : eC(w, v.c); }
static inline Val vex(Expr *e) { return isC(e) ? VC(e->c) : Val{0, e}; }

// make operand concrete: fork one state per feasible value (same pc, register replaced)
static uint64_t concretize(State &s, Opd o, int limit = 600) {
  Val v = opv(*s.T().st.back(), o); if (!v.e) return v.c;
  Expr *e = v.e; int n = 0;
  uint64_t first = evalExpr(e, *s.model); Expr *rest = eNot(eBin(E_EQ, e, eC(e->w, first)));
  // enumerate other values
  std::vector<std::pair<uint64_t, ModelP>> vals; Expr *acc = rest; 
  State probe(s);
  while (true) { ModelP m; int r = solve(probe, acc, &m); if (r < 0) { pathError(s, "solver: unknown/timeout"); break; } if (r == 0) break;
    uint64_t x = evalExpr(e, *m); vals.push_back({x, m}); acc = eBin(E_AND, acc, eNot(eBin(E_EQ, e, eC(e->w, x)))); if (++n > limit) abortPath(s, "too many values when concretising"); }
  if (n) uninitCheck(s, eBin(E_EQ, e, eC(e->w, first)));
  for (auto &pr : vals) { State *t = forkState(s); addPC(*t, eBin(E_EQ, e, eC(e->w, pr.first))); t->model = pr.second; t->top().regs[o] = VC(pr.first); push(t); }
  if (n) addPC(s, eBin(E_EQ, e, eC(e->w, first)));
  s.top().regs[o] = VC(first); return first;
}

// ---------------------------------------------------------------- memory
enum { OBJOFF = 256, REDZONE = 2048 };
static Obj *mkObj(State &s, uint64_t size, uint8_t kind, bool zero, bool owner) {
  Obj *o = new Obj(); o->rc = 1; o->kind = kind; o->freed = false; o->ro = false; o->owner = owner; o->size = size; o->sh = nullptr; o->name = nullptr; o->akind = 0; o->freeSite = 0; o->modelFreed = false;
  o->slot = s.nextSlot; o->nslots = (size + OBJOFF + REDZONE + 65535) >> 16; s.nextSlot += o->nslots; o->base = ((uint64_t)o->slot << 16) + OBJOFF; o->allocId = s.allocSeq++; o->site = 0;
  static Chunk *zeroC = nullptr, *uninC = nullptr;
  if (!zeroC) { zeroC = newChunk(CHUNK); uninC = newChunk(CHUNK); uninC->init = (uint8_t *)calloc(1, CHUNK); }
  for (uint64_t off = 0; off < size; off += CHUNK) {
    uint32_t n = std::min<uint64_t>(CHUNK, size - off);
    if (n == CHUNK) { Chunk *c = zero ? zeroC : uninC; c->rc++; o->ch.push_back(c); }
    else { Chunk *c = newChunk(n); if (!zero) { c->init = (uint8_t *)calloc(1, n); } o->ch.push_back(c); }
  }
  s.mem.set(o->slot, o);
  for (uint32_t i = 1; i < o->nslots; i++) { Obj *a = new Obj(); a->rc = 1; a->kind = o->kind; a->nslots = 0; a->slot = o->slot; a->sh = nullptr; a->size = 0; a->base = o->base; a->freed = false; s.mem.set(o->slot + i, a); }
  return o;
}
static Obj *objAt(State &s, uint64_t addr) {
  uint64_t slot = addr >> 16; if (slot == 0 || slot >= s.nextSlot) return nullptr;
  Obj *o = s.mem.get(slot); if (o && o->nslots == 0) o = s.mem.get(o->slot); return o;
}
static Chunk *ownChunk(Obj *o, uint32_t i) { Chunk *&c = o->ch[i]; if (c->rc > 1) { Chunk *n = cloneChunk(c); c->rc--; c = n; } return c; }

static std::string siteName(uint32_t site) { return site < siteInst.size() ? whereStr(siteInst[site]) : "?"; }
static void raceCheck(State &s, Obj *o, uint64_t off, uint64_t n, bool write, bool atomic, uint32_t site) {
  if (!optRace || !s.raceOn || s.th.size() < 2 || o->size > 65536 || o->ro || s.exempt()) return;
  Obj *w = s.mem.own(o->slot); if (!w->sh) { w->sh = new Shadow(); w->sh->rc = 1; w->sh->c.resize(w->size); memset((void *)w->sh->c.data(), 0, w->size * sizeof(ShadowCell)); }
  else if (w->sh->rc > 1) { Shadow *c = new Shadow(*w->sh); c->rc = 1; w->sh->rc--; w->sh = c; }
  int t = s.cur; auto &vc = s.T().vc; auto V = [&](size_t u) { return u < vc.size() ? vc[u] : 0u; };
  for (uint64_t i = off; i < off + n && i < w->size; i++) {
    ShadowCell &c = w->sh->c[i]; std::string bad; uint32_t osite = 0;
    if (c.wclk && c.wtid != t && c.wclk > V(c.wtid)) { bad = "write"; osite = c.wsite; }
    if (bad.empty() && write) for (int u = 0; u < 6; u++) if (u != t && c.rclk[u] > V(u)) { bad = "read"; osite = c.rsite; }
    if (bad.empty() && !atomic) for (int u = 0; u < 6; u++) if (u != t && (c.aw[u] > V(u) || (write && c.ar[u] > V(u)))) { bad = "atomic access"; }
    if (!bad.empty()) {
      std::string other = osite ? siteName(osite) : "?";
      report(s, "race", "", std::string("data race: ") + (write ? "write" : "read") + " not ordered with earlier " + bad + " at " + other + " (object " + (o->name ? o->name : (o->kind == OK_HEAP ? "heap" : "stack")) + " size " + std::to_string(o->size) + " off " + std::to_string(i) + ", allocated " + siteName(o->site) + ")", *s.model);
      endPath();
    }
    uint32_t my = V(t);
    if (atomic) { if (write) c.aw[t] = my; else c.ar[t] = my; }
    else if (write) { c.wclk = my; c.wtid = t; c.wsite = site; }
    else { c.rclk[t] = my; c.rsite = site; }
  }
}
// check [addr,addr+n) lies in a live object
static Obj *access(State &s, uint64_t addr, uint64_t n, bool write, uint64_t &off, const char *what) {
  Obj *o = objAt(s, addr);
  if (!o) fault(s, "memory", std::string(what) + (addr < 65536 ? ": null pointer dereference, address " : ": wild or dangling pointer ") + std::to_string(addr));
  if (o->freed) fault(s, "memory", std::string(what) + ": use after free (object of " + std::to_string(o->size) + " bytes allocated at " + siteName(o->site) + ", freed at " + siteName(o->freeSite) + ")");
  if (addr < o->base || addr + n > o->base + o->size) fault(s, "memory", std::string(what) + ": out of bounds (offset " + std::to_string((int64_t)(addr - o->base)) + " size " + std::to_string(n) + " of object of " + std::to_string(o->size) + " bytes" + (o->name ? std::string(" ") + o->name : "") + " allocated at " + siteName(o->site) + ")");
  if (write && o->ro) fault(s, "memory", std::string(what) + ": write to constant");
  off = addr - o->base; return o;
}
static inline Expr *readByteRaw(State &s, Obj *&o, uint64_t off, uint8_t &conc) { // returns expr or null+conc
  Chunk *c = o->ch[off / CHUNK]; uint32_t p = off % CHUNK;
  if (c->init && !c->init[p]) {
    Expr *e = freshSym(s, "uninit", 8, 1); Obj *w = s.mem.own(o->slot); Chunk *d = ownChunk(w, off / CHUNK); d->init[p] = 1;
    if (!d->sym) d->sym = (Expr **)calloc(d->n, sizeof(Expr *)); d->sym[p] = e; o = w; return e;
  }
  if (c->sym && c->sym[p]) return c->sym[p];
  conc = c->data[p]; return nullptr;
}
static Val loadC(State &s, Obj *o, uint64_t off, unsigned bytes) {
  uint32_t p = off % CHUNK; Chunk *c = o->ch[off / CHUNK];
  if (p + bytes <= c->n && !c->sym && !c->init) { uint64_t v = 0; memcpy(&v, c->data + p, bytes); return VC(v); }
  uint64_t v = 0; bool any = false; Expr *be[8]; uint8_t cb[8];
  for (unsigned i = 0; i < bytes; i++) { be[i] = readByteRaw(s, o, off + i, cb[i]); if (be[i]) any = true; else v |= (uint64_t)cb[i] << (8 * i); }
  if (!any) return VC(v);
  Expr *e = nullptr; for (unsigned i = 0; i < bytes; i++) { Expr *b = be[i] ? be[i] : eC(8, cb[i]); e = e ? eConcat(b, e) : b; }
  return vex(e);
}
static void storeC(State &s, Obj *o, uint64_t off, unsigned bytes, Val v) {
  Obj *w = s.mem.own(o->slot);
  for (unsigned i = 0; i < bytes;) {
    Chunk *c = ownChunk(w, (off + i) / CHUNK); uint32_t p = (off + i) % CHUNK; unsigned n = std::min<unsigned>(bytes - i, c->n - p);
    if (!v.e) { for (unsigned j = 0; j < n; j++) c->data[p + j] = v.c >> (8 * (i + j)); if (c->init) memset(c->init + p, 1, n); if (c->sym) memset(c->sym + p, 0, n * sizeof(Expr *)); }
    else {
      if (!c->sym) c->sym = (Expr **)calloc(c->n, sizeof(Expr *));
      for (unsigned j = 0; j < n; j++) { Expr *b = v.e->w == 8 ? v.e : eExtract(v.e->w % 8 ? eZext(v.e, (v.e->w + 7) / 8 * 8) : v.e, 8 * (i + j), 8); if (isC(b)) { c->sym[p + j] = nullptr; c->data[p + j] = b->c; } else c->sym[p + j] = b; }
      if (c->init) memset(c->init + p, 1, n);
    }
    i += n;
  }
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n, uint32_t site) {
  if (!n) return; uint64_t so, dof; Obj *a = access(s, src, n, false, so, "memcpy source"); raceCheck(s, a, so, n, false, false, site);
  Obj *b = access(s, dst, n, true, dof, "memcpy destination"); raceCheck(s, b, dof, n, true, false, site);
  a = objAt(s, src);
  struct B { uint8_t d, i; Expr *e; }; static std::vector<B> tmp; tmp.resize(n);
  for (uint64_t i = 0; i < n; i++) { Chunk *c = a->ch[(so + i) / CHUNK]; uint32_t p = (so + i) % CHUNK; tmp[i].d = c->data[p]; tmp[i].i = c->init ? c->init[p] : 1; tmp[i].e = c->sym && tmp[i].i ? c->sym[p] : nullptr; }
  Obj *w = s.mem.own(objAt(s, dst)->slot);
  for (uint64_t i = 0; i < n;) {
    Chunk *c = ownChunk(w, (dof + i) / CHUNK); uint32_t p = (dof + i) % CHUNK; uint64_t m = std::min<uint64_t>(n - i, c->n - p);
    for (uint64_t j = 0; j < m; j++, i++) {
      B &x = tmp[i]; c->data[p + j] = x.d;
      if (x.e) { if (!c->sym) c->sym = (Expr **)calloc(c->n, sizeof(Expr *)); c->sym[p + j] = x.e; } else if (c->sym) c->sym[p + j] = nullptr;
      if (!x.i) { if (!c->init) { c->init = (uint8_t *)malloc(c->n); memset(c->init, 1, c->n); } c->init[p + j] = 0; } else if (c->init) c->init[p + j] = 1;
    }
  }
}
static void setMem(State &s, uint64_t dst, Val v, uint64_t n, uint32_t site) {
  if (!n) return; uint64_t off; Obj *b = access(s, dst, n, true, off, "memset"); raceCheck(s, b, off, n, true, false, site);
  Obj *w = s.mem.own(objAt(s, dst)->slot); static Chunk *zeroC = nullptr; if (!zeroC) zeroC = newChunk(CHUNK);
  for (uint64_t i = 0; i < n;) {
    uint32_t ci = (off + i) / CHUNK, p = (off + i) % CHUNK; uint64_t m = std::min<uint64_t>(n - i, w->ch[ci]->n - p);
    if (!v.e && (v.c & 255) == 0 && p == 0 && m == CHUNK) { unrefChunk(w->ch[ci]); zeroC->rc++; w->ch[ci] = zeroC; i += m; continue; }
    Chunk *c = ownChunk(w, ci);
    if (!v.e) { memset(c->data + p, (int)(v.c & 255), m); if (c->sym) memset(c->sym + p, 0, m * sizeof(Expr *)); }
    else { if (!c->sym) c->sym = (Expr **)calloc(c->n, sizeof(Expr *)); Expr *b8 = eExtract(v.e, 0, 8); for (uint64_t j = 0; j < m; j++) c->sym[p + j] = b8; }
    if (c->init) memset(c->init + p, 1, m);
    i += m;
  }
}
// resolve a possibly symbolic pointer; afterwards either concrete (returned in addr) or symbolic within one object
static bool resolvePtr(State &s, Opd o, uint64_t n, uint64_t &addr, Expr *&sym, Obj *&obj, uint64_t &lo, uint64_t &hi) {
  Val v = opv(*s.T().st.back(), o); sym = nullptr; if (!v.e) { addr = v.c; return true; }
  Expr *e = v.e; uint64_t a0 = evalExpr(e, *s.model); Obj *ob = objAt(s, a0);
  if (!ob || ob->freed || a0 < ob->base || a0 + n > ob->base + ob->size) { // this model is already bad: pin and report through the concrete path
    addPC(s, eBin(E_EQ, e, eC(64, a0))); addr = a0; return true; }
  Expr *in = eBin(E_AND, eNot(eBin(E_ULT, e, eC(64, ob->base))), eNot(eBin(E_ULT, eC(64, ob->base + ob->size - n), e)));
  Forked f = branch(s, in); if (f.o) { if (f.v) push(f.o); else { push(f.o); } }
  if (!f.v) endPath();
  // range of the offset: find min and max by solver-free enumeration limited
  lo = 0; hi = ob->size - n; sym = eBin(E_SUB, e, eC(64, ob->base)); obj = ob;
  if (hi > 1024) { addr = concretize(s, o, 300); sym = nullptr; }
  return true;
}

static void freeHeap(State &s, uint64_t p, int akind, uint32_t site) {
  if (!p) return; Obj *o = objAt(s, p);
  if (!o || o->kind != OK_HEAP || p != o->base) fault(s, "memory", "free of a pointer that is not the start of a heap block");
  if (o->freed) fault(s, "memory", "double free (first freed at " + siteName(o->freeSite) + ", allocated at " + siteName(o->site) + ")");
  if (o->akind != akind) fault(s, "memory", "mismatched allocation and deallocation functions");
  raceCheck(s, o, 0, o->size, true, false, site);
  Obj *w = s.mem.own(o->slot); w->freed = true; w->freeSite = site; if (w->owner) s.liveRepo--; for (Chunk *c : w->ch) unrefChunk(c); w->ch.clear(); if (w->sh) { unrefShadow(w->sh); w->sh = nullptr; }
}
#include "interp.inc"
