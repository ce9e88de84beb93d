// vsym: a small path-exploring symbolic executor for LLVM IR (memory-safety + assertion checking), Z3 back end.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <functional>
using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- values
struct V { u64 c; Ex *e; };
static Ex AGGTAG;
static inline V cv(u64 c) { return V{c, nullptr}; }
static inline V sv(Ex *e) { if (isK(e)) return V{e->val, nullptr}; return V{0, e}; }
static inline Ex *ex(const V &v, unsigned w) { return v.e ? v.e : K(v.c, w); }
struct Agg { std::vector<V> v; };
static inline bool isAgg(const V &v) { return v.e == &AGGTAG; }
static V mkAgg(std::vector<V> x) { Agg *a = new Agg{std::move(x)}; return V{(u64) a, &AGGTAG}; }
static Agg *agg(const V &v) { return (Agg *) v.c; }

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK };
struct Obj {
  int rc = 0; u64 base = 0, size = 0; ObjKind kind; bool alive = true, ro = false; 
  std::vector<uint8_t> d; std::vector<Ex *> s; // s empty when fully concrete
  unsigned allocSite = 0;
};
struct ORef {
  Obj *p = nullptr; ORef() {} ORef(Obj *o) : p(o) { if (p) p->rc++; } ORef(const ORef &o) : p(o.p) { if (p) p->rc++; } ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ORef &operator=(ORef o) noexcept { std::swap(p, o.p); return *this; } ~ORef() { if (p && --p->rc == 0) delete p; }
  Obj *operator->() const { return p; } explicit operator bool() const { return p; }
};
static const u64 SLOT = 24, PAD = 0x10000, GB = 1ull << 40, SB = 1ull << 43, HB = 1ull << 44, HE = 1ull << 47, MAXOBJ = 8u << 20;
static const u64 FB = 0x10000000ull;

// ---------------------------------------------------------------- program
static bool forkSelect = false;
enum IOp : uint8_t { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_SELECT, I_ALLOCA, I_EXTRACTV, I_INSERTV, I_UNREACH, I_FNEG, I_FREEZE, I_UNSUP };
struct Fn;
struct Leaf { unsigned off, w; };
struct Inst {
  IOp op; uint8_t sub = 0, w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; // operand: >=0 reg, <0 const ~i
  u64 k = 0; std::vector<int> ops; std::vector<u64> ks; std::vector<Leaf> leaves; int t0 = -1, t1 = -1; Fn *callee = nullptr; int intr = 0; Type *rty = nullptr; std::vector<Type *> atys; unsigned line = 0; const Instruction *I = nullptr;
};
struct PhiMove { int dst, src; };
struct Block { int start; std::map<int, std::vector<PhiMove>> phis; };
struct Fn { Function *F; std::string name; bool compiled = false; bool decl = false; u64 addr; int nregs = 0, nargs = 0; std::vector<Inst> code; std::vector<int> bstart; std::vector<std::vector<std::pair<int, std::vector<PhiMove>>>> phis; int builtin = 0; bool va = false; u64 calls = 0; std::vector<int> instBlock; std::vector<uint8_t> cov; };
static std::vector<V> constPool; static std::unordered_map<const Constant *, int> constIdx;
static std::vector<Fn *> fns; static std::unordered_map<const Function *, Fn *> fnMap; static std::map<std::string, Fn *> fnByName;
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const GlobalVariable *, u64> gAddr;

struct Frame { Fn *f; int pc; int prevBlk, blk; std::vector<V> r; int dst; int nAlloca = 0; std::vector<int> allocas; V vaObj{0, nullptr}; const Inst *callInst = nullptr; };
struct SymRec { std::string name; uint32_t first, n; };
struct State {
  std::vector<Frame> st; std::vector<ORef> heap, stk, glob; std::vector<int> stkFree; int stkTop = 0;
  std::vector<Ex *> pc; Model m; uint32_t nsym = 0; std::vector<SymRec> syms; u64 steps = 0; u64 live = 0; int depth = 0; std::vector<std::string> notes; bool concretized = false;
};
static std::vector<State *> work; static State *S;

// ---------------------------------------------------------------- options / shared stats
struct Shared { volatile int idle, procs, maxProcs; volatile u64 paths, errs, cut, killed, steps, forks, queries, qsat, qunsat, qunk, qcache, qfp, conc, qtab; volatile double stime, maxq; volatile u64 done; volatile int crashed; volatile int stop; double deadline; volatile u64 maxdepth; };
static Shared *SH; static std::string outDir, entry; static u64 maxSteps = 30000000; static u64 maxErr = 20; static int maxDepthFrames = 6000; static int argCase = 0; static bool verbose = false; static FILE *logf_;
static std::map<std::string, u64> reach, cuts; static std::set<std::string> errSeen;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct PathEnd {};
static std::string where() {
  std::string s; int n = 0;
  for (int i = (int) S->st.size() - 1; i >= 0 && n < 12; i--, n++) { Frame &f = S->st[i]; unsigned ln = 0; if (f.pc >= 0 && f.pc < (int) f.f->code.size()) ln = f.f->code[std::max(0, i == (int) S->st.size() - 1 ? f.pc : f.pc - 1)].line; s += (n ? " < " : "") + f.f->name + ":" + std::to_string(ln); }
  return s;
}
static void dumpCase(const char *kind, const std::string &msg, const Model &m) {
  // dedupe on kind+innermost location
  std::string w = where(); std::string key = std::string(kind) + "|" + msg + "|" + (strcmp(kind, "check") ? w.substr(0, w.find(" < ")) : "");
  __sync_fetch_and_add(&SH->errs, 1);
  if (errSeen.count(key)) return; errSeen.insert(key);
  if (errSeen.size() > maxErr) return;
  static int cnt = 0; char fn[512]; snprintf(fn, sizeof fn, "%s/case_%d_%d.txt", outDir.c_str(), (int) getpid(), cnt++);
  FILE *f = fopen(fn, "w"); if (!f) return;
  fprintf(f, "kind %s\nmsg %s\nwhere %s\n", kind, msg.c_str(), w.c_str());
  for (auto &r : S->syms) { fprintf(f, "in %s %u ", r.name.c_str(), r.n); for (uint32_t i = 0; i < r.n; i++) fprintf(f, "%02x", r.first + i < m.size() ? m[r.first + i] : 0); fprintf(f, "\n"); }
  fclose(f);
}
static void dumpSample() {
  u64 i = __sync_fetch_and_add(&SH->done, 1) + 1; if (i & (i - 1)) return; char fn[512]; snprintf(fn, sizeof fn, "%s/sample_%llu.txt", outDir.c_str(), (unsigned long long) i); FILE *f = fopen(fn, "w"); if (!f) return; fprintf(f, "kind sample\n");
  for (auto &r : S->syms) { fprintf(f, "in %s %u ", r.name.c_str(), r.n); for (uint32_t i = 0; i < r.n; i++) fprintf(f, "%02x", r.first + i < S->m.size() ? S->m[r.first + i] : 0); fprintf(f, "\n"); }
  fclose(f);
}
static void err(const char *kind, const std::string &msg) { dumpCase(kind, msg, S->m); if (verbose) fprintf(stderr, "ERR %s: %s\n   %s\n", kind, msg.c_str(), where().c_str()); throw PathEnd(); }
static void cut(const std::string &why) { cuts[why]++; __sync_fetch_and_add(&SH->cut, 1); if (verbose) fprintf(stderr, "CUT %s at %s\n", why.c_str(), where().c_str()); throw PathEnd(); }

// ---------------------------------------------------------------- forking
static void spawnMaybe();
static void addPC(State *s, Ex *c) { if (isK(c)) return; if (c->op == E_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } for (auto x : s->pc) if (x == c) return; s->pc.push_back(c); }
static State *forkState() { __sync_fetch_and_add(&SH->forks, 1); return new State(*S); }

// decide a boolean condition; forks when both feasible. returns the value in the current state.
// The forked state re-executes the current instruction with the negated condition asserted.
static bool decide(Ex *c) {
  if (isK(c)) return c->val;
  bool v = evalEx(c, S->m); Ex *nc = Not(c); Ex *taken = v ? c : nc, *other = v ? nc : c;
  for (auto x : S->pc) { if (x == taken) return v; }
  Model m2 = S->m; SRes r = solve(S->pc, other, m2);
  if (r == S_SAT) { State *n = forkState(); n->m = std::move(m2); addPC(n, other); work.push_back(n); addPC(S, taken); }
  else if (r == S_UNKNOWN) { cuts["solver-unknown"]++; __sync_fetch_and_add(&SH->cut, 1); addPC(S, taken); }
  return v;
}
// concretise a value by case split over all feasible values (each is a path)
static u64 conc(const V &v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = evalEx(v.e, S->m);
  Ex *eq = Eq(v.e, K(x, w)); (void) w;
  if (!isK(eq)) { Ex *ne = Not(eq); Model m2 = S->m; SRes r = solve(S->pc, ne, m2);
    if (r == S_SAT) { State *n = forkState(); n->m = std::move(m2); addPC(n, ne); work.push_back(n); addPC(S, eq); }
    else { if (r == S_UNKNOWN) { cuts["solver-unknown"]++; __sync_fetch_and_add(&SH->cut, 1); } addPC(S, eq); } }
  return x;
}

// ---------------------------------------------------------------- memory access
static ORef *slotOf(u64 a) {
  if (a >= HB) { if (a >= HE) return nullptr; u64 i = (a - HB) >> SLOT; return i < S->heap.size() ? &S->heap[i] : nullptr; }
  if (a >= SB) { u64 i = (a - SB) >> SLOT; return i < S->stk.size() ? &S->stk[i] : nullptr; }
  if (a >= GB) { u64 i = (a - GB) >> SLOT; return i < S->glob.size() ? &S->glob[i] : nullptr; }
  return nullptr;
}
static Obj *wr(ORef *r) { if (r->p->rc > 1) { Obj *n = new Obj(*r->p); n->rc = 0; *r = ORef(n); } return r->p; }
static std::string hex(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) x); return b; }
static ORef *checkRange(u64 a, u64 n, bool write) {
  ORef *r = slotOf(a);
  if (!r || !*r) err("memory", std::string(a < 4096 ? "null-dereference" : "wild-pointer") + (write ? " write" : " read"));
  Obj *o = r->p;
  if (!o->alive) err("memory", std::string(o->kind == OK_STACK ? "use-after-return" : "use-after-free") + (write ? " write" : " read"));
  if (a < o->base || a + n > o->base + o->size) err("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + (o->kind == OK_STACK ? " stack" : o->kind == OK_GLOBAL ? " global" : " heap"));
  if (write && o->ro) err("memory", "write to read-only object");
  return r;
}
static inline void setSymByte(Obj *o, u64 off, Ex *e) {
  if (isK(e)) { o->d[off] = (uint8_t) e->val; if (!o->s.empty()) o->s[off] = nullptr; }
  else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = e; }
}
static V loadC(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; ORef *r = checkRange(a, n, false); Obj *o = r->p; u64 off = a - o->base;
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { u64 v = 0; memcpy(&v, &o->d[off], n); return cv(v & mask(w)); }
  Ex *e = nullptr; for (unsigned i = 0; i < n; i++) { Ex *b = o->s[off + i] ? o->s[off + i] : K(o->d[off + i], 8); e = e ? mk(E_CONCAT, (i + 1) * 8, b, e) : b; }
  if (w < n * 8) e = Extract(e, 0, w);
  return sv(e);
}
static void storeC(u64 a, V v, unsigned w) {
  unsigned n = (w + 7) / 8; ORef *r = checkRange(a, n, true); Obj *o = wr(r); u64 off = a - o->base;
  if (!v.e) { u64 c = v.c & mask(w); memcpy(&o->d[off], &c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  Ex *e = v.e; if (w < n * 8) e = Zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) setSymByte(o, off + i, n == 1 ? e : Extract(e, i * 8, 8));
}
// resolve a symbolic address: pin to one object (forking the rest); returns object and symbolic offset, or a concrete address
static bool resolve(const V &av, unsigned n, bool write, ORef *&ro, Ex *&off, u64 &ca) {
  if (!av.e) { ca = av.c; return true; }
  u64 x = evalEx(av.e, S->m); ORef *r = slotOf(x);
  if (!r || !*r || !r->p->alive || x < r->p->base || x + n > r->p->base + r->p->size || r->p->size > 4096) { ca = conc(av, 64); return true; }
  Obj *o = r->p; Ex *d = mk(E_SUB, 64, av.e, K(o->base, 64));
  if (o->size < n) { ca = conc(av, 64); return true; }
  Ex *in = mk(E_ULE, 1, d, K(o->size - n, 64));
  decide(in); // model satisfies `in`, so the current state keeps it; others re-execute
  ro = r; off = d; return false;
}
static V loadV(const V &av, unsigned w) {
  unsigned n = (w + 7) / 8; ORef *r; Ex *off; u64 ca; if (resolve(av, n, false, r, off, ca)) return loadC(ca, w);
  Obj *o = r->p; u64 b = o->base; 
  // bound feasible offsets with a few solver probes to keep the ITE small
  u64 lo = 0, hi = o->size - n; u64 cur = evalEx(off, S->m);
  if (hi - lo > 64) { u64 L = 0, H = cur; Model t = S->m; while (L < H) { u64 mid = (L + H) / 2; Model t2 = S->m; SRes q = solve(S->pc, mk(E_ULE, 1, off, K(mid, 64)), t2); if (q == S_SAT) H = std::min(mid, evalEx(off, t2)); else if (q == S_UNSAT) L = mid + 1; else { L = 0; break; } } lo = L;
    L = cur; H = o->size - n; while (L < H) { u64 mid = L + (H - L + 1) / 2; Model t2 = S->m; SRes q = solve(S->pc, mk(E_ULE, 1, K(mid, 64), off), t2); if (q == S_SAT) L = std::max(mid, evalEx(off, t2)); else if (q == S_UNSAT) H = mid - 1; else { L = o->size - n; break; } } hi = L; }
  if (hi - lo > 600) { return loadC(conc(av, 64), w); }
  Ex *res = nullptr; for (u64 i = lo; i <= hi; i++) { Ex *v = ex(loadC(b + i, w), w); if (!res) res = v; else res = mk(E_ITE, w, Eq(off, K(i, 64)), v, res); }
  return sv(res);
}
static void storeV(const V &av, V v, unsigned w) {
  unsigned n = (w + 7) / 8; ORef *r; Ex *off; u64 ca;
  if (av.e) { ca = conc(av, 64); storeC(ca, v, w); return; }
  (void) r; (void) off; (void) n; storeC(av.c, v, w);
}
static u64 newObj(std::vector<ORef> &reg, u64 rb, u64 idx, u64 size, ObjKind k, uint8_t fill) {
  Obj *o = new Obj; o->base = rb + (idx << SLOT) + PAD; o->size = size; o->kind = k; o->d.assign(size, fill);
  if (idx >= reg.size()) reg.resize(idx + 1); reg[idx] = ORef(o); return o->base;
}
static u64 heapAlloc(u64 n, uint8_t fill) { if (n > MAXOBJ) return 0; S->live++; return newObj(S->heap, HB, S->heap.size(), n, OK_HEAP, fill); }
static void heapFree(u64 p) {
  if (!p) return; ORef *r = slotOf(p); if (!r || !*r || r->p->kind != OK_HEAP || r->p->base != p) err("memory", "invalid free");
  if (!r->p->alive) err("memory", "double free");
  Obj *o = wr(r); o->alive = false; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); S->live--;
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; ORef *rs = checkRange(s, n, false); std::vector<uint8_t> b(rs->p->d.begin() + (s - rs->p->base), rs->p->d.begin() + (s - rs->p->base) + n); std::vector<Ex *> e;
  if (!rs->p->s.empty()) e.assign(rs->p->s.begin() + (s - rs->p->base), rs->p->s.begin() + (s - rs->p->base) + n);
  ORef *rd = checkRange(d, n, true); Obj *o = wr(rd); u64 off = d - o->base; memcpy(&o->d[off], b.data(), n);
  if (!e.empty()) { bool any = false; for (auto x : e) if (x) { any = true; break; } if (any || !o->s.empty()) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) o->s[off + i] = e[i]; } }
  else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
}
static void setMem(u64 d, const V &v, u64 n) { if (!n) return; ORef *r = checkRange(d, n, true); Obj *o = wr(r); u64 off = d - o->base; for (u64 i = 0; i < n; i++) { if (v.e) setSymByte(o, off + i, v.e); else { o->d[off + i] = (uint8_t) v.c; if (!o->s.empty()) o->s[off + i] = nullptr; } } }
static std::string cstr(u64 a) { std::string s; for (;; a++) { V v = loadC(a, 8); u64 c = v.e ? evalEx(v.e, S->m) : v.c; if (!c) return s; s += (char) c; if (s.size() > 200) return s; } }

// ---------------------------------------------------------------- compile
static unsigned tw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64 ? t->getIntegerBitWidth() : 0; if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0;
}
static void leavesOf(Type *t, unsigned off, std::vector<Leaf> &o) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * es, o); return; }
  o.push_back({off, tw(t)});
}
static unsigned leafCount(Type *t) { std::vector<Leaf> l; leavesOf(t, 0, l); return l.size(); }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> ix) { unsigned n = 0; for (unsigned i : ix) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) n += leafCount(st->getElementType(j)); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); n += i * leafCount(at->getElementType()); t = at->getElementType(); } } return n; }
static u64 evalConstU(const Constant *c);
static V evalConst(const Constant *c) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) { std::vector<V> v; if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) v.assign(leafCount(t), cv(0)); else for (unsigned i = 0; i < (t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements()); i++) { V x = evalConst(c->getAggregateElement(i)); if (isAgg(x)) for (auto &y : agg(x)->v) v.push_back(y); else v.push_back(x); } return mkAgg(v); }
  return cv(evalConstU(c));
}
static Fn *getFn(Function *F);
static u64 evalConstU(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getValue().getActiveBits() <= 64 ? i->getZExtValue() : 0;
  if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gAddr.find(g); if (it != gAddr.end()) return it->second; return 0; }
  if (auto *f = dyn_cast<Function>(c)) return getFn(const_cast<Function *>(f))->addr;
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConstU(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { u64 b = evalConstU(ce->getOperand(0)); auto *gep = cast<GEPOperator>(ce); APInt o(64, 0); if (gep->accumulateConstantOffset(*DL, o)) return b + o.getSExtValue(); break; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { u64 v = evalConstU(ce->getOperand(0)); unsigned w = tw(ce->getType()); return v & mask(w ? w : 64); }
      case Instruction::Trunc: return evalConstU(ce->getOperand(0)) & mask(tw(ce->getType()));
      case Instruction::Sub: return (evalConstU(ce->getOperand(0)) - evalConstU(ce->getOperand(1))) & mask(tw(ce->getType()));
      case Instruction::Add: return (evalConstU(ce->getOperand(0)) + evalConstU(ce->getOperand(1))) & mask(tw(ce->getType()));
      case Instruction::ICmp: { u64 a = evalConstU(ce->getOperand(0)), b = evalConstU(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_EQ) return a == b; if (ce->getPredicate() == CmpInst::ICMP_NE) return a != b; break; }
      default: break;
    }
  }
  errs() << "vsym: unsupported constant " << *c << "\n"; exit(3);
}
static int constOp(const Constant *c) { auto it = constIdx.find(c); if (it != constIdx.end()) return it->second; constPool.push_back(evalConst(c)); int id = ~(int) (constPool.size() - 1); constIdx[c] = id; return id; }

enum { B_NONE = 0, B_SYM = 1, B_ASSUME, B_CHECK, B_REACH, B_CHOOSE, B_CONC, B_ABORT, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_LIVE, B_EXIT, B_ASSERTFAIL, B_FMTD, B_STRTOD, B_CUT, B_ISSYM, B_NOTE, B_CASE, B_ALLOCSIZE, B_MEMCPY, B_MEMSET, B_PRINT, B_READABLE, B_ISALIVE, B_PICK, B_HAVOCFILL };
static std::map<std::string, int> builtins = {{"vs_sym", B_SYM}, {"vs_assume", B_ASSUME}, {"vs_check", B_CHECK}, {"vs_reach", B_REACH}, {"vs_choose", B_CHOOSE}, {"vs_conc", B_CONC}, {"abort", B_ABORT}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"vs_live", B_LIVE}, {"vs_exit", B_EXIT}, {"exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"vs_fmt_double", B_FMTD}, {"vs_host_strtod", B_STRTOD}, {"vs_cut", B_CUT}, {"vs_is_symbolic", B_ISSYM}, {"vs_note", B_NOTE}, {"vs_case", B_CASE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"vs_print", B_PRINT}, {"vs_readable", B_READABLE}, {"vs_pick_model", B_PICK}, {"vs_alloc_size", B_ALLOCSIZE}};

static Fn *getFn(Function *F) {
  auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
  Fn *f = new Fn; f->F = F; f->name = F->getName().str(); f->decl = F->isDeclaration(); f->va = F->isVarArg(); f->addr = FB + 16 * fns.size(); fns.push_back(f); fnMap[F] = f; fnByName[f->name] = f;
  auto b = builtins.find(f->name); if (b != builtins.end()) f->builtin = b->second; return f;
}
static void compile(Fn *f) {
  if (f->compiled) return; f->compiled = true; Function *F = f->F; if (F->isDeclaration()) return;
  std::unordered_map<const Value *, int> reg; int nr = 0; for (auto &a : F->args()) reg[&a] = nr++; f->nargs = nr;
  std::unordered_map<const BasicBlock *, int> bi; int nb = 0; for (auto &B : *F) { bi[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = nr++; }
  f->nregs = nr; f->bstart.resize(nb); f->phis.resize(nb);
  auto O = [&](const Value *v) -> int { if (auto *c = dyn_cast<Constant>(v)) return constOp(c); auto it = reg.find(v); if (it == reg.end()) return constOp(ConstantInt::get(Type::getInt64Ty(Ctx), 0)); return it->second; };
  for (auto &B : *F) {
    int b = bi[&B]; f->bstart[b] = f->code.size();
    std::map<int, std::vector<PhiMove>> pm;
    for (auto &I : B) {
      if (auto *p = dyn_cast<PHINode>(&I)) { std::set<int> seen; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { int pb = bi[p->getIncomingBlock(i)]; if (!seen.insert(pb).second) continue; pm[pb].push_back({reg[p], O(p->getIncomingValue(i))}); } continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst n; n.I = &I; if (auto &dl = I.getDebugLoc()) n.line = dl.getLine(); if (!I.getType()->isVoidTy()) n.dst = reg[&I]; n.w = tw(I.getType());
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          static const std::map<unsigned, EOp> mp = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
          n.op = I_BIN; n.sub = mp.at(I.getOpcode()); n.a = O(I.getOperand(0)); n.b = O(I.getOperand(1)); if (!n.w) n.op = I_UNSUP; break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: n.op = I_FBIN; n.sub = I.getOpcode() == Instruction::FAdd ? E_FADD : I.getOpcode() == Instruction::FSub ? E_FSUB : I.getOpcode() == Instruction::FMul ? E_FMUL : E_FDIV; n.a = O(I.getOperand(0)); n.b = O(I.getOperand(1)); if (!n.w) n.op = I_UNSUP; break;
        case Instruction::FNeg: n.op = I_FNEG; n.a = O(I.getOperand(0)); break;
        case Instruction::ICmp: { auto *c = cast<ICmpInst>(&I); n.op = I_ICMP; n.sub = c->getPredicate(); n.a = O(c->getOperand(0)); n.b = O(c->getOperand(1)); n.w2 = tw(c->getOperand(0)->getType()); if (!n.w2) n.op = I_UNSUP; break; }
        case Instruction::FCmp: { auto *c = cast<FCmpInst>(&I); n.op = I_FCMP; n.sub = c->getPredicate(); n.a = O(c->getOperand(0)); n.b = O(c->getOperand(1)); n.w2 = tw(c->getOperand(0)->getType()); if (!n.w2) n.op = I_UNSUP; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
          n.op = I_CAST; n.a = O(I.getOperand(0)); n.w2 = tw(I.getOperand(0)->getType());
          switch (I.getOpcode()) { case Instruction::Trunc: n.sub = 1; break; case Instruction::ZExt: n.sub = 2; break; case Instruction::SExt: n.sub = 3; break; case Instruction::FPTrunc: n.sub = E_FTRUNC; break; case Instruction::FPExt: n.sub = E_FEXT; break; case Instruction::FPToSI: n.sub = E_FPTOSI; break; case Instruction::FPToUI: n.sub = E_FPTOUI; break; case Instruction::SIToFP: n.sub = E_SITOFP; break; case Instruction::UIToFP: n.sub = E_UITOFP; break; default: n.sub = n.w < n.w2 ? 1 : n.w > n.w2 ? 2 : 0; }
          if (!n.w || !n.w2) n.op = I_UNSUP; break; }
        case Instruction::Load: n.op = I_LOAD; n.a = O(I.getOperand(0)); if (!n.w) leavesOf(I.getType(), 0, n.leaves); break;
        case Instruction::Store: { Type *t = I.getOperand(0)->getType(); n.op = I_STORE; n.w = tw(t); n.a = O(I.getOperand(0)); n.b = O(I.getOperand(1)); if (!n.w) leavesOf(t, 0, n.leaves); break; }
        case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(&I); n.op = I_GEP; n.a = O(g->getPointerOperand()); n.k = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (auto *st = gi.getStructTypeOrNull()) n.k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) n.k += sz * ci->getSExtValue(); else { n.ops.push_back(O(ix)); n.ks.push_back(sz); n.ks.push_back(tw(ix->getType())); } } }
          break; }
        case Instruction::Br: { auto *br = cast<BranchInst>(&I); if (br->isUnconditional()) { n.op = I_BR; n.t0 = bi[br->getSuccessor(0)]; } else { n.op = I_CBR; n.a = O(br->getCondition()); n.t0 = bi[br->getSuccessor(0)]; n.t1 = bi[br->getSuccessor(1)]; } break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); n.op = I_SWITCH; n.a = O(sw->getCondition()); n.w = tw(sw->getCondition()->getType()); n.t0 = bi[sw->getDefaultDest()]; for (auto &c : sw->cases()) { n.ks.push_back(c.getCaseValue()->getZExtValue()); n.ops.push_back(bi[c.getCaseSuccessor()]); } break; }
        case Instruction::Ret: n.op = I_RET; n.a = I.getNumOperands() ? O(I.getOperand(0)) : -1; n.k = I.getNumOperands(); break;
        case Instruction::Select: n.op = I_SELECT; n.a = O(I.getOperand(0)); n.b = O(I.getOperand(1)); n.c = O(I.getOperand(2)); break;
        case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); n.op = I_ALLOCA; n.k = DL->getTypeAllocSize(a->getAllocatedType()); n.a = O(a->getArraySize()); n.w2 = tw(a->getArraySize()->getType()); break; }
        case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&I); n.op = I_EXTRACTV; n.a = O(e->getAggregateOperand()); n.k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()); if (!n.w) n.ks.push_back(leafCount(I.getType())); break; }
        case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(&I); n.op = I_INSERTV; n.a = O(e->getAggregateOperand()); n.b = O(e->getInsertedValueOperand()); n.k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()); break; }
        case Instruction::Unreachable: n.op = I_UNREACH; break;
        case Instruction::Freeze: n.op = I_FREEZE; n.a = O(I.getOperand(0)); break;
        case Instruction::Call: {
          auto *c = cast<CallInst>(&I); n.op = I_CALL; n.rty = c->getType(); for (auto &a : c->args()) { n.ops.push_back(isa<MetadataAsValue>(a) ? 0 : O(a)); n.atys.push_back(a->getType()); }
          if (c->isInlineAsm()) { n.op = I_UNSUP; break; }
          if (auto *cf = c->getCalledFunction()) { n.intr = cf->getIntrinsicID(); if (!n.intr) n.callee = getFn(cf); } else n.a = O(c->getCalledOperand());
          break; }
        default: n.op = I_UNSUP;
      }
      f->code.push_back(std::move(n));
    }
    for (auto &p : pm) f->phis[b].push_back({p.first, p.second});
  }
  f->cov.assign(f->code.size(), 0); 
}

// ---------------------------------------------------------------- interpreter
static inline const V &val(Frame &f, int o) { return o >= 0 ? f.r[o] : constPool[~o]; }
static void gotoBlk(Frame &f, int nb) {
  auto &ps = f.f->phis[nb];
  for (auto &p : ps) if (p.first == f.blk) { auto &mv = p.second; if (mv.size() == 1) { V t = val(f, mv[0].src); f.r[mv[0].dst] = t; } else { V tmp[64]; std::vector<V> big; V *t = tmp; if (mv.size() > 64) { big.resize(mv.size()); t = big.data(); } for (size_t i = 0; i < mv.size(); i++) t[i] = val(f, mv[i].src); for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].dst] = t[i]; } break; }
  f.prevBlk = f.blk; f.blk = nb; f.pc = f.f->bstart[nb];
}
static V bin(EOp op, unsigned w, const V &a, const V &b) { if (!a.e && !b.e) { static Ex dummy; dummy.w = w; return cv(evalOp(op, w, 0, &dummy, a.c, b.c, 0)); } return sv(mk(op, w, ex(a, w), ex(b, w))); }
static V icmp(unsigned pr, unsigned w, const V &a, const V &b) {
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; int64_t sa = sx(x, w), sb = sx(y, w); switch (pr) { case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_SGT: return cv(sa > sb); case CmpInst::ICMP_SGE: return cv(sa >= sb); case CmpInst::ICMP_SLT: return cv(sa < sb); default: return cv(sa <= sb); } }
  Ex *x = ex(a, w), *y = ex(b, w);
  switch (pr) { case CmpInst::ICMP_EQ: return sv(Eq(x, y)); case CmpInst::ICMP_NE: return sv(Not(Eq(x, y))); case CmpInst::ICMP_UGT: return sv(mk(E_ULT, 1, y, x)); case CmpInst::ICMP_UGE: return sv(mk(E_ULE, 1, y, x)); case CmpInst::ICMP_ULT: return sv(mk(E_ULT, 1, x, y)); case CmpInst::ICMP_ULE: return sv(mk(E_ULE, 1, x, y)); case CmpInst::ICMP_SGT: return sv(mk(E_SLT, 1, y, x)); case CmpInst::ICMP_SGE: return sv(mk(E_SLE, 1, y, x)); case CmpInst::ICMP_SLT: return sv(mk(E_SLT, 1, x, y)); default: return sv(mk(E_SLE, 1, x, y)); }
}
static V fcmp(unsigned pr, unsigned w, const V &a, const V &b) {
  Ex *x = ex(a, w), *y = ex(b, w); Ex *uno = mk(E_FUNO, 1, x, y), *r;
  auto O = [&](Ex *e) { return sv(e); }; auto U = [&](Ex *e) { return sv(mk(E_OR, 1, uno, e)); };
  switch (pr) {
    case CmpInst::FCMP_FALSE: return cv(0); case CmpInst::FCMP_TRUE: return cv(1);
    case CmpInst::FCMP_OEQ: return O(mk(E_FEQ, 1, x, y)); case CmpInst::FCMP_OGT: return O(mk(E_FLT, 1, y, x)); case CmpInst::FCMP_OGE: return O(mk(E_FLE, 1, y, x)); case CmpInst::FCMP_OLT: return O(mk(E_FLT, 1, x, y)); case CmpInst::FCMP_OLE: return O(mk(E_FLE, 1, x, y));
    case CmpInst::FCMP_ONE: r = mk(E_AND, 1, Not(uno), Not(mk(E_FEQ, 1, x, y))); return O(r); case CmpInst::FCMP_ORD: return O(Not(uno)); case CmpInst::FCMP_UNO: return O(uno);
    case CmpInst::FCMP_UEQ: return U(mk(E_FEQ, 1, x, y)); case CmpInst::FCMP_UGT: return O(Not(mk(E_FLE, 1, x, y))); case CmpInst::FCMP_UGE: return O(Not(mk(E_FLT, 1, x, y))); case CmpInst::FCMP_ULT: return O(Not(mk(E_FLE, 1, y, x))); case CmpInst::FCMP_ULE: return O(Not(mk(E_FLT, 1, y, x)));
    default: return O(Not(mk(E_FEQ, 1, x, y))); // UNE
  }
}
static V castV(unsigned sub, unsigned w, unsigned w2, const V &a) {
  if (sub == 0) return a;
  if (!a.e) { switch (sub) { case 1: return cv(a.c & mask(w)); case 2: return a; case 3: return cv((u64) sx(a.c, w2) & mask(w)); } }
  Ex *x = ex(a, w2); switch (sub) { case 1: return sv(Extract(x, 0, w)); case 2: return sv(Zext(x, w)); case 3: return sv(Sext(x, w)); default: return sv(mk((EOp) sub, w, x)); }
}

static void popFrame(const V *rv) {
  Frame &f = S->st.back(); for (int id : f.allocas) { S->stk[id] = ORef(); S->stkFree.push_back(id); } int dst = f.dst; const Inst *ci = f.callInst;
  S->st.pop_back(); if (S->st.empty()) { dumpSample(); throw PathEnd(); }
  Frame &c = S->st.back();
  if (dst >= 0) { V v = rv ? *rv : cv(0); if (!isAgg(v) && ci && tw(ci->rty) && tw(ci->rty) < 64) { unsigned w = tw(ci->rty); if (v.e) { if (v.e->w > w) v = sv(Extract(v.e, 0, w)); else if (v.e->w < w) v = sv(Zext(v.e, w)); } else v.c &= mask(w); } else if (!isAgg(v) && v.e && v.e->w < 64 && ci && tw(ci->rty) == 64) v = sv(Zext(v.e, 64)); c.r[dst] = v; }
}
static u64 allocaObj(u64 n) { int id; if (!S->stkFree.empty()) { id = S->stkFree.back(); S->stkFree.pop_back(); } else id = S->stk.size(); u64 a = newObj(S->stk, SB, id, n, OK_STACK, 0xCD); S->st.back().allocas.push_back(id); return a; }

static void callFn(Fn *fn, const Inst &n, const std::vector<V> &args) {
  compile(fn); fn->calls++;
  if ((int) S->st.size() > maxDepthFrames) err("recursion", "call depth exceeded");
  Frame nf; nf.f = fn; nf.r.resize(fn->nregs, cv(0)); nf.dst = n.dst; nf.callInst = &n; nf.blk = 0; nf.prevBlk = -1; nf.pc = 0;
  Function *F = fn->F;
  bool exact = F->arg_size() <= args.size(); if (exact) for (unsigned i = 0; i < F->arg_size(); i++) if (F->getArg(i)->getType() != n.atys[i]) exact = false;
  if (exact) { for (unsigned i = 0; i < F->arg_size(); i++) nf.r[i] = args[i]; }
  else { // SysV-style register passing for mismatched indirect calls
    std::vector<V> gi; std::vector<unsigned> gw; std::vector<V> fi; std::vector<unsigned> fw;
    for (size_t i = 0; i < args.size(); i++) { if (n.atys[i]->isFloatingPointTy()) { fi.push_back(args[i]); fw.push_back(tw(n.atys[i])); } else { gi.push_back(args[i]); gw.push_back(tw(n.atys[i])); } }
    size_t g = 0, x = 0;
    for (unsigned i = 0; i < F->arg_size(); i++) { Type *t = F->getArg(i)->getType(); unsigned w = tw(t); V v = cv(0xCDCDCDCDCDCDCDCDull & mask(w)); 
      if (t->isFloatingPointTy()) { if (x < fi.size()) { v = fi[x]; unsigned vw = fw[x]; if (vw != w) v = w < vw ? castV(1, w, vw, v) : castV(2, w, vw, v); x++; } }
      else { if (g < gi.size()) { v = gi[g]; unsigned vw = gw[g]; if (vw != w) v = w < vw ? castV(1, w, vw, v) : castV(2, w, vw, v); g++; } }
      nf.r[i] = v; }
  }
  S->st.push_back(std::move(nf));
  if (fn->va) { // lay out variadic args in memory
    unsigned na = F->arg_size(); u64 cnt = args.size() > na ? args.size() - na : 0; u64 a = allocaObj(8 * cnt + 8); for (u64 i = 0; i < cnt; i++) { V v = args[na + i]; unsigned w = tw(n.atys[na + i]); if (w < 64) v = castV(2, 64, w, v); storeC(a + 8 * i, v, 64); } S->st.back().vaObj = cv(a);
  }
}

static void newSym(u64 addr, u64 n, const std::string &nm) {
  ORef *r = checkRange(addr, n, true); Obj *o = wr(r); u64 off = addr - o->base; S->syms.push_back({nm, S->nsym, (uint32_t) n});
  for (u64 i = 0; i < n; i++) setSymByte(o, off + i, Sym(S->nsym + i)); S->nsym += n; S->m.resize(S->nsym, 0);
}
static void setRet(const Inst &n, V v) { if (n.dst >= 0) S->st.back().r[n.dst] = v; }

// NB: builtins that may fork must do so before any side effect (forked states re-execute the instruction).
static void builtin(int b, const Inst &n, std::vector<V> &A) {
  switch (b) {
    case B_SYM: { u64 p = conc(A[0], 64), l = conc(A[1], 64); std::string nm = cstr(A[2].c); newSym(p, l, nm); break; }
    case B_ASSUME: { V c = A[0]; Ex *e = c.e ? Not(Eq(c.e, K(0, c.e->w))) : K(c.c != 0, 1); if (isK(e)) { if (!e->val) { __sync_fetch_and_add(&SH->killed, 1); throw PathEnd(); } break; }
      if (evalEx(e, S->m)) { addPC(S, e); break; }
      Model m2 = S->m; SRes r = solve(S->pc, e, m2); if (r == S_SAT) { S->m = std::move(m2); addPC(S, e); } else { if (r == S_UNKNOWN) cut("solver-unknown"); __sync_fetch_and_add(&SH->killed, 1); throw PathEnd(); } break; }
    case B_CHECK: { V c = A[0]; Ex *e = c.e ? Not(Eq(c.e, K(0, c.e->w))) : K(c.c != 0, 1); std::string msg = cstr(conc(A[1], 64)); reach["check:" + msg]++;
      if (isK(e)) { if (!e->val) err("check", msg); break; }
      Ex *ne = Not(e); if (!evalEx(e, S->m)) { // current model violates
        dumpCase("check", msg, S->m); Model m2 = S->m; SRes r = solve(S->pc, e, m2); if (r != S_SAT) throw PathEnd(); S->m = std::move(m2); addPC(S, e); break; }
      Model m2 = S->m; SRes r = solve(S->pc, ne, m2); if (r == S_SAT) dumpCase("check", msg, m2); else if (r == S_UNKNOWN) { cuts["solver-unknown-check:" + msg]++; __sync_fetch_and_add(&SH->cut, 1); } addPC(S, e); break; }
    case B_REACH: reach[cstr(A[0].c)]++; break;
    case B_CHOOSE: { u64 k = conc(A[0], 32); std::string nm = cstr(A[1].c); if (k == 0 || k > 256) { cut("vs_choose range"); }
      S->syms.push_back({nm, S->nsym, 1}); uint32_t id = S->nsym++; S->m.resize(S->nsym, 0);
      Ex *s = Sym(id); for (u64 i = k - 1; i >= 1; i--) { State *t = forkState(); t->m[id] = (uint8_t) i; t->pc.push_back(Eq(s, K(i, 8))); if (n.dst >= 0) t->st.back().r[n.dst] = cv(i); t->st.back().pc++; work.push_back(t); }
      S->pc.push_back(Eq(s, K(0, 8))); setRet(n, cv(0)); break; }
    case B_CONC: setRet(n, cv(conc(A[0], 64))); break;
    case B_ABORT: err("abort", "abort() called"); break;
    case B_ASSERTFAIL: err("abort", "assertion failed: " + cstr(conc(A[0], 64))); break;
    case B_MALLOC: { u64 sz = conc(A[0], 64); setRet(n, cv(heapAlloc(sz, 0xCD))); break; }
    case B_CALLOC: { u64 x = conc(A[0], 64), y = conc(A[1], 64); if (y && x > MAXOBJ / y + 1) setRet(n, cv(0)); else setRet(n, cv(heapAlloc(x * y, 0))); break; }
    case B_REALLOC: { u64 p = conc(A[0], 64), sz = conc(A[1], 64); if (p == 0) { setRet(n, cv(heapAlloc(sz, 0xCD))); break; }
      ORef *r = slotOf(p); if (!r || !*r || r->p->kind != OK_HEAP || r->p->base != p) err("memory", "realloc of invalid pointer"); if (!r->p->alive) err("memory", "realloc after free");
      if (sz > MAXOBJ) { setRet(n, cv(0)); break; } if (sz == 0) { heapFree(p); setRet(n, cv(0)); break; }
      u64 old = r->p->size; u64 q = heapAlloc(sz, 0xCD); copyMem(q, p, std::min(old, sz)); heapFree(p); setRet(n, cv(q)); break; }
    case B_FREE: { u64 p = conc(A[0], 64); heapFree(p); break; }
    case B_LIVE: setRet(n, cv(S->live)); break;
    case B_EXIT: dumpSample(); throw PathEnd();
    case B_CUT: cut(cstr(A[0].c)); break;
    case B_ISSYM: { setRet(n, cv(A[0].e != nullptr)); break; }
    case B_NOTE: break;
    case B_CASE: setRet(n, cv(argCase)); break;
    case B_PICK: { // pick the model value without exploring others: recorded as a concretisation (outside the claim)
      if (A[0].e) { u64 x = evalEx(A[0].e, S->m); addPC(S, Eq(A[0].e, K(x, A[0].e->w))); __sync_fetch_and_add(&SH->conc, 1); cuts["concretised"]++; S->concretized = true; setRet(n, cv(x)); } else setRet(n, A[0]); break; }
    case B_PRINT: if (verbose) { V v = A[1]; fprintf(stderr, "[print] %s %s\n", cstr(A[0].c).c_str(), v.e ? exStr(v.e).c_str() : hex(v.c).c_str()); } break;
    case B_READABLE: { u64 p = conc(A[0], 64); ORef *r = slotOf(p); u64 k = conc(A[1], 64); setRet(n, cv(r && *r && r->p->alive && p >= r->p->base && p + k <= r->p->base + r->p->size)); break; }
    case B_ALLOCSIZE: { u64 p = conc(A[0], 64); ORef *r = slotOf(p); setRet(n, cv(r && *r && r->p->alive ? r->p->size : 0)); break; }
    case B_FMTD: { // vs_fmt_double(char *buf, size_t n, const char *fmt, double d) -> int ; concrete only
      u64 buf = conc(A[0], 64), sz = conc(A[1], 64); std::string fmt = cstr(conc(A[2], 64)); V d = A[3]; if (d.e) { u64 x = evalEx(d.e, S->m); addPC(S, Eq(d.e, K(x, 64))); cuts["concretised-double-format"]++; __sync_fetch_and_add(&SH->conc, 1); d = cv(x); }
      char t[512]; int l = snprintf(t, sizeof t, fmt.c_str(), d_of(d.c)); for (u64 i = 0; i < sz && i <= (u64) l; i++) storeC(buf + i, cv(i + 1 == sz ? 0 : (uint8_t) t[i]), 8); setRet(n, cv((uint32_t) l)); break; }
    case B_STRTOD: { // vs_host_strtod(const char *s, size_t n): concretises the bytes by case split
      u64 p = conc(A[0], 64), k = conc(A[1], 64); std::string s; for (u64 i = 0; i < k; i++) { V v = loadC(p + i, 8); u64 c = conc(v, 8); s += (char) c; } setRet(n, cv(of_d(strtod(s.c_str(), nullptr)))); break; }
    case B_MEMCPY: { u64 d = conc(A[0], 64), s = conc(A[1], 64), k = conc(A[2], 64); copyMem(d, s, k); setRet(n, cv(d)); break; }
    case B_MEMSET: { u64 d = conc(A[0], 64), k = conc(A[2], 64); V v = A[1]; if (v.e) v = sv(Extract(v.e, 0, 8)); setMem(d, v, k); setRet(n, cv(d)); break; }
    default: cut("builtin?"); 
  }
}

static V ite(Ex *c, const V &a, const V &b, unsigned w) { return sv(mk(E_ITE, w, c, ex(a, w), ex(b, w))); }
static void doIntrinsic(const Inst &n, std::vector<V> &A) {
  unsigned w = n.w;
  switch (n.intr) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: return;
    case Intrinsic::stacksave: setRet(n, cv(0)); return; case Intrinsic::stackrestore: return;
    case Intrinsic::expect: case Intrinsic::ssa_copy: setRet(n, A[0]); return;
    case Intrinsic::objectsize: setRet(n, cv(A[1].c ? 0 : mask(w))); return;
    case Intrinsic::is_constant: setRet(n, cv(0)); return;
    case Intrinsic::trap: err("abort", "trap"); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = conc(A[0], 64), s = conc(A[1], 64), k = conc(A[2], 64); copyMem(d, s, k); return; }
    case Intrinsic::memset: { u64 d = conc(A[0], 64), k = conc(A[2], 64); setMem(d, A[1], k); return; }
    case Intrinsic::vastart: { u64 p = conc(A[0], 64); storeC(p, cv(48), 32); storeC(p + 4, cv(304), 32); storeC(p + 8, S->st.back().vaObj, 64); storeC(p + 16, cv(0), 64); return; }
    case Intrinsic::vacopy: copyMem(conc(A[0], 64), conc(A[1], 64), 24); return;
    case Intrinsic::fabs: setRet(n, bin(E_AND, w, A[0], cv(mask(w) >> 1))); return;
    case Intrinsic::copysign: setRet(n, bin(E_OR, w, bin(E_AND, w, A[0], cv(mask(w) >> 1)), bin(E_AND, w, A[1], cv(1ull << (w - 1))))); return;
    case Intrinsic::floor: setRet(n, sv(mk(E_FRND, w, ex(A[0], w), nullptr, nullptr, 1))); return;
    case Intrinsic::ceil: setRet(n, sv(mk(E_FRND, w, ex(A[0], w), nullptr, nullptr, 2))); return;
    case Intrinsic::trunc: setRet(n, sv(mk(E_FRND, w, ex(A[0], w), nullptr, nullptr, 3))); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: setRet(n, sv(mk(E_FRND, w, ex(A[0], w), nullptr, nullptr, 0))); return;
    case Intrinsic::fmuladd: setRet(n, bin(E_FADD, w, bin(E_FMUL, w, A[0], A[1]), A[2])); return;
    case Intrinsic::is_fpclass: { unsigned ww = tw(n.atys[0]); u64 mk_ = A[1].c; unsigned mb = ww == 64 ? 52 : 23, eb = ww == 64 ? 11 : 8; Ex *x = ex(A[0], ww); Ex *man = Extract(x, 0, mb), *exx = Extract(x, mb, eb), *sg = Extract(x, ww - 1, 1);
      Ex *mz = Eq(man, K(0, mb)), *emax = Eq(exx, K(mask(eb), eb)), *ez = Eq(exx, K(0, eb)), *neg = sg, *pos = Not(sg), *q = Extract(man, mb - 1, 1); Ex *r = K(0, 1); auto orr = [&](int bit, Ex *c) { if (mk_ & bit) r = mk(E_OR, 1, r, c); }; auto an = [&](Ex *a, Ex *b) { return mk(E_AND, 1, a, b); };
      if ((mk_ & 3) == 3) r = ww == 64 || ww == 32 ? mk(E_FUNO, 1, x, x) : r; else { orr(1, an(emax, an(Not(q), Not(mz)))); orr(2, an(emax, q)); }
      orr(4, an(neg, an(emax, mz))); orr(512, an(pos, an(emax, mz))); orr(8, an(neg, an(Not(emax), Not(ez)))); orr(256, an(pos, an(Not(emax), Not(ez)))); orr(16, an(neg, an(ez, Not(mz)))); orr(128, an(pos, an(ez, Not(mz)))); orr(32, an(neg, an(ez, mz))); orr(64, an(pos, an(ez, mz)));
      setRet(n, sv(r)); return; }
    case Intrinsic::smax: setRet(n, ite(ex(icmp(CmpInst::ICMP_SGT, w, A[0], A[1]), 1), A[0], A[1], w)); return;
    case Intrinsic::smin: setRet(n, ite(ex(icmp(CmpInst::ICMP_SLT, w, A[0], A[1]), 1), A[0], A[1], w)); return;
    case Intrinsic::umax: setRet(n, ite(ex(icmp(CmpInst::ICMP_UGT, w, A[0], A[1]), 1), A[0], A[1], w)); return;
    case Intrinsic::umin: setRet(n, ite(ex(icmp(CmpInst::ICMP_ULT, w, A[0], A[1]), 1), A[0], A[1], w)); return;
    case Intrinsic::abs: setRet(n, ite(ex(icmp(CmpInst::ICMP_SLT, w, A[0], cv(0)), 1), bin(E_SUB, w, cv(0), A[0]), A[0], w)); return;
    case Intrinsic::bswap: { Ex *x = ex(A[0], w), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Ex *b = Extract(x, i * 8, 8); r = r ? mk(E_CONCAT, (i + 1) * 8, r, b) : b; } setRet(n, sv(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { if (A[2].e) cut("symbolic funnel shift"); u64 k = A[2].c % w; if (n.intr == Intrinsic::fshr) { if (!k) { setRet(n, A[1]); return; } k = w - k; } if (!k) { setRet(n, A[0]); return; } setRet(n, bin(E_OR, w, bin(E_SHL, w, A[0], cv(k)), bin(E_LSHR, w, A[1], cv(w - k)))); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = tw(n.atys[0]); V a = A[0], b = A[1], r, o; 
      switch (n.intr) {
        case Intrinsic::uadd_with_overflow: r = bin(E_ADD, ww, a, b); o = icmp(CmpInst::ICMP_ULT, ww, r, a); break;
        case Intrinsic::usub_with_overflow: r = bin(E_SUB, ww, a, b); o = icmp(CmpInst::ICMP_ULT, ww, a, b); break;
        case Intrinsic::umul_with_overflow: r = bin(E_MUL, ww, a, b); if (a.e || b.e) { V z = icmp(CmpInst::ICMP_EQ, ww, b, cv(0)); V q = bin(E_UDIV, ww, r, b); o = sv(mk(E_AND, 1, Not(ex(z, 1)), Not(ex(icmp(CmpInst::ICMP_EQ, ww, q, a), 1)))); } else o = cv(b.c && (a.c > mask(ww) / b.c)); break;
        default: cut("signed overflow intrinsic"); }
      setRet(n, mkAgg({r, o})); return; }
    default: cut("intrinsic " + (n.callee ? n.callee->name : std::to_string(n.intr)) + " " + cast<CallInst>(n.I)->getCalledFunction()->getName().str());
  }
}

static void step() {
  Frame *fp = &S->st.back(); Frame &f = *fp; const Inst &n = f.f->code[f.pc]; f.f->cov[f.pc] = 1;
  switch (n.op) {
    case I_BIN: {
      const V &a = val(f, n.a), &b = val(f, n.b);
      if (n.sub >= E_UDIV && n.sub <= E_SREM) { // division by zero / overflow traps
        V z = icmp(CmpInst::ICMP_EQ, n.w, b, cv(0)); if (z.e ? decide(z.e) : z.c) err("arith", "division by zero");
        if (n.sub == E_SDIV || n.sub == E_SREM) if (n.w >= 32) { V o = sv(mk(E_AND, 1, ex(icmp(CmpInst::ICMP_EQ, n.w, b, cv(mask(n.w))), 1), ex(icmp(CmpInst::ICMP_EQ, n.w, a, cv(1ull << (n.w - 1))), 1))); if (o.e ? decide(o.e) : o.c) err("arith", "division overflow"); }
      }
      if (n.sub >= E_SHL && n.sub <= E_ASHR) { // x86: shift count masked to 5/6 bits when out of range (UB in C, matches hardware)
        unsigned hw = n.w <= 32 ? 32 : 64; if (n.w == hw) { V m = bin(E_AND, n.w, b, cv(hw - 1)); f.r[n.dst] = bin((EOp) n.sub, n.w, a, m); f.pc++; return; } }
      f.r[n.dst] = bin((EOp) n.sub, n.w, a, b); f.pc++; return; }
    case I_ICMP: f.r[n.dst] = icmp(n.sub, n.w2, val(f, n.a), val(f, n.b)); f.pc++; return;
    case I_FBIN: f.r[n.dst] = bin((EOp) n.sub, n.w, val(f, n.a), val(f, n.b)); f.pc++; return;
    case I_FNEG: f.r[n.dst] = bin(E_XOR, n.w, val(f, n.a), cv(1ull << (n.w - 1))); f.pc++; return;
    case I_FCMP: f.r[n.dst] = fcmp(n.sub, n.w2, val(f, n.a), val(f, n.b)); f.pc++; return;
    case I_CAST: f.r[n.dst] = castV(n.sub, n.w, n.w2, val(f, n.a)); f.pc++; return;
    case I_FREEZE: f.r[n.dst] = val(f, n.a); f.pc++; return;
    case I_LOAD: { if (n.w) { V v = loadV(val(f, n.a), n.w); f.r[n.dst] = v; } else { u64 a = conc(val(f, n.a), 64); std::vector<V> o; for (auto &l : n.leaves) o.push_back(loadC(a + l.off, l.w)); f.r[n.dst] = mkAgg(o); } f.pc++; return; }
    case I_STORE: { if (n.w) storeV(val(f, n.b), val(f, n.a), n.w); else { u64 a = conc(val(f, n.b), 64); V v = val(f, n.a); for (size_t i = 0; i < n.leaves.size(); i++) storeC(a + n.leaves[i].off, agg(v)->v[i], n.leaves[i].w); } f.pc++; return; }
    case I_GEP: { V r = val(f, n.a); if (n.k) r = bin(E_ADD, 64, r, cv(n.k)); for (size_t i = 0; i < n.ops.size(); i++) { V x = val(f, n.ops[i]); unsigned w = n.ks[2 * i + 1]; if (w < 64) x = castV(3, 64, w, x); if (!x.e && !r.e) r.c += x.c * n.ks[2 * i]; else r = bin(E_ADD, 64, r, bin(E_MUL, 64, x, cv(n.ks[2 * i]))); } f.r[n.dst] = r; f.pc++; return; }
    case I_BR: gotoBlk(f, n.t0); return;
    case I_CBR: { const V &c = val(f, n.a); bool t = c.e ? decide(c.e) : (c.c & 1); gotoBlk(f, t ? n.t0 : n.t1); return; }
    case I_SWITCH: { const V &c = val(f, n.a); int t = n.t0;
      if (!c.e) { for (size_t i = 0; i < n.ks.size(); i++) if (n.ks[i] == c.c) { t = n.ops[i]; break; } }
      else { // group by target so that one path is explored per distinct destination
        u64 x = evalEx(c.e, S->m); for (size_t i = 0; i < n.ks.size(); i++) if (n.ks[i] == x) { t = n.ops[i]; break; }
        Ex *cond; if (t == n.t0) { cond = K(1, 1); for (size_t i = 0; i < n.ks.size(); i++) if (n.ops[i] != t) cond = mk(E_AND, 1, cond, Not(Eq(c.e, K(n.ks[i], n.w)))); }
        else { cond = K(0, 1); for (size_t i = 0; i < n.ks.size(); i++) if (n.ops[i] == t) cond = mk(E_OR, 1, cond, Eq(c.e, K(n.ks[i], n.w))); }
        bool r = isK(cond) ? cond->val : decide(cond); if (!r) cut("switch"); }
      gotoBlk(f, t); return; }
    case I_SELECT: { const V &c = val(f, n.a); if (!c.e) f.r[n.dst] = (c.c & 1) ? val(f, n.b) : val(f, n.c); else { V a = val(f, n.b), b = val(f, n.c); if (forkSelect || isAgg(a) || isAgg(b)) f.r[n.dst] = decide(c.e) ? a : b; else f.r[n.dst] = ite(c.e, a, b, n.w); } f.pc++; return; }
    case I_ALLOCA: { u64 cnt = conc(val(f, n.a), n.w2); u64 a = allocaObj(n.k * cnt); S->st.back().r[n.dst] = cv(a); S->st.back().pc++; return; }
    case I_EXTRACTV: { const V &a = val(f, n.a); if (n.ks.empty()) f.r[n.dst] = agg(a)->v[n.k]; else { std::vector<V> o(agg(a)->v.begin() + n.k, agg(a)->v.begin() + n.k + n.ks[0]); f.r[n.dst] = mkAgg(o); } f.pc++; return; }
    case I_INSERTV: { std::vector<V> o = agg(val(f, n.a))->v; const V &b = val(f, n.b); if (isAgg(b)) for (size_t i = 0; i < agg(b)->v.size(); i++) o[n.k + i] = agg(b)->v[i]; else o[n.k] = b; f.r[n.dst] = mkAgg(o); f.pc++; return; }
    case I_UNREACH: err("abort", "unreachable executed"); return;
    case I_RET: { if (n.k) { V v = val(f, n.a); popFrame(&v); } else popFrame(nullptr); return; }
    case I_CALL: {
      std::vector<V> A; A.reserve(n.ops.size()); for (int o : n.ops) A.push_back(val(f, o));
      if (n.intr) { doIntrinsic(n, A); S->st.back().pc++; return; }
      Fn *fn = n.callee;
      if (!fn) { u64 a = conc(val(f, n.a), 64); u64 i = (a - FB) / 16; if (a < FB || i >= fns.size() || (a - FB) % 16) err("memory", a ? "call through invalid function pointer" : "call through null function pointer"); fn = fns[i]; }
      if (fn->builtin) { builtin(fn->builtin, n, A); S->st.back().pc++; return; }
      if (fn->decl) { cut("external function " + fn->name); }
      f.pc++; callFn(fn, n, A); return; }
    default: cut("unsupported instruction " + std::string(n.I->getOpcodeName()));
  }
}

// ---------------------------------------------------------------- driver
static u64 procSteps = 0;
static void flushStats() {
  __sync_fetch_and_add(&SH->steps, procSteps); procSteps = 0; __sync_fetch_and_add(&SH->queries, SS.queries); __sync_fetch_and_add(&SH->qsat, SS.sat); __sync_fetch_and_add(&SH->qunsat, SS.unsat); __sync_fetch_and_add(&SH->qunk, SS.unknown); __sync_fetch_and_add(&SH->qcache, SS.cacheHits); __sync_fetch_and_add(&SH->qfp, SS.fpQueries); __sync_fetch_and_add(&SH->qtab, SS.table);
  int fd = open((outDir + "/lock").c_str(), O_RDWR | O_CREAT, 0600); flock(fd, LOCK_EX); SH->stime = SH->stime + SS.time; if (SS.maxq > SH->maxq) SH->maxq = SS.maxq;
  FILE *f = fopen((outDir + "/stats.txt").c_str(), "a"); for (auto &r : reach) fprintf(f, "reach\t%s\t%llu\n", r.first.c_str(), (unsigned long long) r.second); for (auto &r : cuts) fprintf(f, "cut\t%s\t%llu\n", r.first.c_str(), (unsigned long long) r.second);
  for (Fn *x : fns) if (x->calls) { u64 c = 0; for (auto b : x->cov) c += b; fprintf(f, "fn\t%s\t%llu\t%llu\t%zu\n", x->name.c_str(), (unsigned long long) x->calls, (unsigned long long) c, x->cov.size()); }
  fclose(f); close(fd); SS = SolverStats(); reach.clear(); cuts.clear(); for (Fn *x : fns) { x->calls = 0; }
}
// If there are free worker tokens and we have more than one state, fork a process that takes the older half.
static void spawnMaybe() {
  if (work.size() < 1) return;
  int p = SH->procs; if (p >= SH->maxProcs) return; if (!__sync_bool_compare_and_swap(&SH->procs, p, p + 1)) return;
  flushStats(); fflush(stderr);
  pid_t c = fork(); if (c < 0) { __sync_fetch_and_sub(&SH->procs, 1); return; }
  size_t half = (work.size() + 1) / 2;
  if (c == 0) { prctl(PR_SET_PDEATHSIG, 0); solverAfterFork(); delete S; S = nullptr; for (size_t i = half; i < work.size(); i++) delete work[i]; work.resize(half); errSeen.clear(); throw 1; }
  for (size_t i = 0; i < half; i++) delete work[i]; work.erase(work.begin(), work.begin() + half);
}
static void runAll() {
  u64 tick = 0;
  for (;;) {
    if (!S) { if (work.empty()) break; S = work.back(); work.pop_back(); }
    try {
      u64 base = S->steps;
      for (;;) {
        step(); S->steps++; procSteps++;
        if ((++tick & 0x3ff) == 0) { if (SH->stop || ((tick & 0x3fff) == 0 && now() > SH->deadline)) { SH->stop = 1; cuts["time-budget"]++; for (size_t i = 0; i < work.size(); i++) { cuts["time-budget"]++; } __sync_fetch_and_add(&SH->cut, 1 + work.size()); for (auto w : work) delete w; work.clear(); delete S; S = nullptr; return; }
          if (!work.empty() && SH->procs < SH->maxProcs) spawnMaybe(); }
        if (S->steps - 0 > maxSteps) { (void) base; err("hang", "step limit exceeded"); }
      }
    } catch (PathEnd &) { __sync_fetch_and_add(&SH->paths, 1); delete S; S = nullptr; if (!work.empty() && SH->procs < SH->maxProcs) { State dummy; S = nullptr; try { spawnMaybe(); } catch (int) {} } }
    catch (int) { /* child after fork: S is null, work holds its share */ }
    if (errSeen.size() > maxErr) { SH->stop = 1; }
  }
}
static void crash(int sg) { if (SH) { __sync_fetch_and_add(&SH->cut, 1); SH->crashed = 1; __sync_fetch_and_sub(&SH->procs, 1); } signal(sg, SIG_DFL); _exit(70); }
int main(int argc, char **argv) {
  static char astk[1 << 16]; stack_t ss = {}; ss.ss_sp = astk; ss.ss_size = sizeof astk; sigaltstack(&ss, nullptr); struct sigaction sa = {}; sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  std::vector<std::string> files; double budget = 120; int jobs = 1; unsigned rl = 4000000, rlf = 40000000; bool noopt = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outDir = nx(); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--case") argCase = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--rlimit") rl = atoi(nx().c_str()); else if (a == "--rlimit-fp") rlf = atoi(nx().c_str()); else if (a == "--max-errors") maxErr = atoi(nx().c_str()); else if (a == "--noopt") noopt = true; else if (a == "--fork-select") forkSelect = true; else if (a == "--max-depth") maxDepthFrames = atoi(nx().c_str()); else files.push_back(a); }
  if (entry.empty() || outDir.empty() || files.empty()) { fprintf(stderr, "usage: vsym --entry F --out DIR [opts] x.bc...\n"); return 2; }
  double t0 = now(); SMDiagnostic d; std::unique_ptr<Module> first;
  for (auto &f : files) { auto m = parseIRFile(f, d, Ctx); if (!m) { d.print("vsym", errs()); return 2; } if (!first) first = std::move(m); else if (Linker::linkModules(*first, std::move(m))) { fprintf(stderr, "link failed\n"); return 2; } }
  M = std::move(first);
  if (!noopt) { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM); ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "function(sroa,early-cse,simplifycfg,instsimplify)")) { errs() << "pass error\n"; return 2; } MPM.run(*M, MAM); }
  DL = &M->getDataLayout(); if (outDir != "-") mkdir(outDir.c_str(), 0755);
  SH = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->procs = 1; SH->maxProcs = jobs; SH->deadline = t0 + budget;
  solverInit(rl, rlf); S = new State; State *init = S;
  // globals
  Frame dummy; for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(g.getValueType()); gAddr[&g] = newObj(init->glob, GB, init->glob.size(), sz, OK_GLOBAL, 0); }
  for (auto &F : *M) if (!F.isIntrinsic()) getFn(&F);
  for (auto &g : M->globals()) { if (!g.hasInitializer() || g.getName().starts_with("llvm.")) continue; u64 base = gAddr[&g]; const Constant *c = g.getInitializer();
    std::function<void(const Constant *, u64)> put = [&](const Constant *c, u64 a) { Type *t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; if (auto *da = dyn_cast<ConstantDataSequential>(c)) { unsigned es = DL->getTypeAllocSize(da->getElementType()); for (unsigned i = 0; i < da->getNumElements(); i++) put(da->getElementAsConstant(i), a + i * es); return; }
      if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) put(c->getAggregateElement(i), a + sl->getElementOffset(i)); return; } if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) put(c->getAggregateElement(i), a + i * es); return; }
      storeC(a, cv(evalConstU(c)), tw(t)); };
    S->st.clear(); try { put(c, base); } catch (PathEnd &) { fprintf(stderr, "global init failed: %s\n", g.getName().str().c_str()); return 2; } if (g.isConstant()) init->glob[(base - GB) >> SLOT].p->ro = true; }
  Fn *ef = fnByName.count(entry) ? fnByName[entry] : nullptr; if (!ef || ef->decl) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  Inst ci; ci.op = I_CALL; ci.rty = Type::getVoidTy(Ctx); static Inst rootInst = ci; callFn(ef, rootInst, {});
  pid_t root = getpid(); double t1 = now(); 
  runAll(); flushStats();
  __sync_fetch_and_sub(&SH->procs, 1);
  if (getpid() != root) { _exit(0); }
  while (SH->procs > 0) { int st; while (waitpid(-1, &st, WNOHANG) > 0) {} usleep(2000); if (now() > SH->deadline + 60) { kill(0, 0); break; } }
  FILE *f = fopen((outDir + "/summary.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"errors\":%llu,\"cut\":%llu,\"assumed_out\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"fp_queries\":%llu,\"table_queries\":%llu,\"concretised\":%llu,\"completed\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"timed_out\":%d,\"crashed\":%d}\n", entry.c_str(), (unsigned long long) SH->paths, (unsigned long long) SH->errs, (unsigned long long) SH->cut, (unsigned long long) SH->killed, (unsigned long long) SH->steps, (unsigned long long) SH->forks, (unsigned long long) SH->queries, (unsigned long long) SH->qsat, (unsigned long long) SH->qunsat, (unsigned long long) SH->qunk, (unsigned long long) SH->qcache, (unsigned long long) SH->qfp, (unsigned long long) SH->qtab, (unsigned long long) SH->conc, (unsigned long long) SH->done, SH->stime, SH->maxq, now() - t1, t1 - t0, SH->stop, SH->crashed); fclose(f);
  if (verbose) { FILE *g = fopen((outDir + "/summary.json").c_str(), "r"); char b[4096]; size_t k = fread(b, 1, 4095, g); b[k] = 0; fputs(b, stderr); }
  _exit(0);
}
