// Expression DAG, simplifier, evaluator and Z3 translation for vsym.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <z3.h>

enum EOp : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
  // floating point; operands/results are IEEE bit patterns (width 32/64)
  E_FADD, E_FSUB, E_FMUL, E_FDIV,
  E_FEQ, E_FLT, E_FLE, E_FUNO,           // ordered eq/lt/le, unordered
  E_FEXT, E_FTRUNC,                      // float<->double
  E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI,
  E_FRND,                                // round to integral: val=0 RNE 1 floor(RTN) 2 ceil(RTP) 3 trunc(RTZ)
  E_MAX
};

struct Ex {
  EOp op; uint8_t w; bool fp; // fp: contains FP op
  uint32_t id; uint32_t vs;   // vs: index of var-set
  uint64_t val;               // CONST value, SYM id, EXTRACT low bit, FRND mode
  Ex *k[3];
  uint32_t stamp; uint64_t ev; // evaluation memo
  Z3_ast z, zf;               // translation memo (bv/bool, fp)
  uint32_t hash; uint64_t umax; // umax: sound unsigned upper bound
};

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }
inline double d_of(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t of_d(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
inline float f_of(uint64_t v) { uint32_t x = (uint32_t) v; float d; memcpy(&d, &x, 4); return d; }
inline uint64_t of_f(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static const uint64_t NAN64 = 0x7ff8000000000000ull, NAN32 = 0x7fc00000u;
inline uint64_t canon64(double d) { return d != d ? NAN64 : of_d(d); }
inline uint64_t canon32(float d) { return d != d ? NAN32 : of_f(d); }

// x86 semantics of out-of-range conversions
inline uint64_t fptosi_c(double d, unsigned w) {
  if (w == 64) { if (d >= -9223372036854775808.0 && d < 9223372036854775808.0) return (uint64_t) (int64_t) d; return 0x8000000000000000ull; }
  int32_t r; if (d > -2147483649.0 && d < 2147483648.0) r = (int32_t) d; else r = INT32_MIN;
  return (uint64_t) r & mask(w);
}
inline uint64_t fptoui_c(double d, unsigned w) {
  if (w == 64) { uint64_t a = fptosi_c(d, 64), b = fptosi_c(d - 9223372036854775808.0, 64); return a | (b & (uint64_t) ((int64_t) a >> 63)); }
  if (w == 32) return fptosi_c(d, 64) & mask(32);
  return fptosi_c(d, 32) & mask(w);
}

// ---------- variable sets (sorted vectors, interned) ----------
struct VarSets {
  std::vector<std::vector<uint32_t>> sets;
  std::unordered_map<uint64_t, uint32_t> un;
  std::unordered_multimap<uint64_t, uint32_t> idx;
  VarSets() { sets.push_back({}); idx.insert({h({}), 0}); }
  static uint64_t h(const std::vector<uint32_t> &v) { uint64_t x = 1469598103934665603ull; for (auto a : v) { x ^= a; x *= 1099511628211ull; } return x; }
  uint32_t intern(std::vector<uint32_t> v) {
    uint64_t hh = h(v); auto r = idx.equal_range(hh);
    for (auto i = r.first; i != r.second; ++i) if (sets[i->second] == v) return i->second;
    sets.push_back(std::move(v)); idx.insert({hh, (uint32_t) sets.size() - 1}); return sets.size() - 1;
  }
  uint32_t single(uint32_t s) { return intern({s}); }
  uint32_t uni(uint32_t a, uint32_t b) {
    if (a == b || b == 0) return a; if (a == 0) return b; if (a > b) std::swap(a, b);
    uint64_t key = ((uint64_t) a << 32) | b; auto it = un.find(key); if (it != un.end()) return it->second;
    std::vector<uint32_t> o; std::set_union(sets[a].begin(), sets[a].end(), sets[b].begin(), sets[b].end(), std::back_inserter(o));
    uint32_t r = intern(std::move(o)); un[key] = r; return r;
  }
};
extern VarSets VS;

inline uint64_t satadd(uint64_t a, uint64_t b, uint64_t m) { uint64_t r; return __builtin_add_overflow(a, b, &r) || r > m ? m : r; }
inline uint64_t umaxOf(const Ex *e) {
  uint64_t m = mask(e->w), r; const Ex *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case E_CONST: return e->val;
    case E_ADD: return satadd(a->umax, b->umax, m);
    case E_MUL: return __builtin_mul_overflow(a->umax, b->umax, &r) || r > m ? m : r;
    case E_AND: return std::min(a->umax, b->umax);
    case E_OR: case E_XOR: { uint64_t x = a->umax | b->umax; int n = x ? 64 - __builtin_clzll(x) : 0; return mask(n) & m; }
    case E_UDIV: return b->op == E_CONST && b->val ? a->umax / b->val : m;
    case E_UREM: return b->op == E_CONST && b->val ? std::min(a->umax, b->val - 1) : m;
    case E_LSHR: return b->op == E_CONST && b->val < 64 ? a->umax >> b->val : m;
    case E_ZEXT: return a->umax;
    case E_EXTRACT: return e->val == 0 ? std::min(a->umax, m) : std::min(a->umax >> e->val, m);
    case E_CONCAT: return (a->umax << b->w) | b->umax | 0;
    case E_ITE: return std::max(b->umax, e->k[2]->umax);
    default: return m;
  }
}
// ---------- interning ----------
struct ExTable {
  std::vector<Ex *> tab; size_t n = 0; Ex *pool = nullptr; size_t pooln = 0; uint32_t next = 1;
  ExTable() : tab(1 << 16, nullptr) {}
  Ex *get(EOp op, unsigned w, uint64_t val, Ex *a, Ex *b, Ex *c) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w; h = (h ^ val) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h + (a ? a->id : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31; h = (h + (b ? b->id : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h + (c ? c->id : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    uint32_t hh = (uint32_t) h;
    for (size_t i = hh & (tab.size() - 1);; i = (i + 1) & (tab.size() - 1)) {
      Ex *e = tab[i];
      if (!e) {
        if (!pooln) { pool = (Ex *) malloc(sizeof(Ex) * 4096); pooln = 4096; }
        e = pool++; pooln--; memset(e, 0, sizeof(*e));
        e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = next++; e->hash = hh;
        e->fp = op >= E_FADD; uint32_t vs = op == E_SYM ? VS.single((uint32_t) val) : 0;
        for (int j = 0; j < 3; j++) if (e->k[j]) { e->fp |= e->k[j]->fp; vs = VS.uni(vs, e->k[j]->vs); }
        e->vs = vs; e->umax = umaxOf(e); tab[i] = e; if (++n * 2 > tab.size()) grow(); return e;
      }
      if (e->hash == hh && e->op == op && e->w == w && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
    }
  }
  void grow() { std::vector<Ex *> o(tab.size() * 2, nullptr); o.swap(tab); for (Ex *e : o) if (e) { size_t i = e->hash & (tab.size() - 1); while (tab[i]) i = (i + 1) & (tab.size() - 1); tab[i] = e; } }
};
extern ExTable XT;

uint64_t evalOp(EOp op, unsigned w, uint64_t val, const Ex *k0, uint64_t a, uint64_t b, uint64_t c);
Ex *mk(EOp op, unsigned w, Ex *a, Ex *b = nullptr, Ex *c = nullptr, uint64_t val = 0);
inline Ex *K(uint64_t v, unsigned w) { return XT.get(E_CONST, w, v & mask(w), nullptr, nullptr, nullptr); }
inline Ex *Sym(uint32_t id) { return XT.get(E_SYM, 8, id, nullptr, nullptr, nullptr); }
inline bool isK(const Ex *e) { return e->op == E_CONST; }
inline Ex *Not(Ex *e) { return mk(E_XOR, e->w, e, K(~0ull, e->w)); }
inline Ex *Extract(Ex *e, unsigned lo, unsigned w) { return mk(E_EXTRACT, w, e, nullptr, nullptr, lo); }
inline Ex *Zext(Ex *e, unsigned w) { return e->w == w ? e : mk(E_ZEXT, w, e); }
inline Ex *Sext(Ex *e, unsigned w) { return e->w == w ? e : mk(E_SEXT, w, e); }
inline Ex *Eq(Ex *a, Ex *b) { return mk(E_EQ, 1, a, b); }

typedef std::vector<uint8_t> Model; // sym id -> value
uint64_t evalEx(Ex *e, const Model &m);
void evalReset();

// ---------- solver ----------
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fpQueries = 0, table = 0; double time = 0, maxq = 0; };
extern SolverStats SS;
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };
// is (conj of cs) && q satisfiable?  on SAT, m is updated for the variables in the slice.
SRes solve(const std::vector<Ex *> &cs, Ex *q, Model &m);
void solverInit(unsigned rlimit, unsigned rlimit_fp);
void solverAfterFork();
std::string exStr(Ex *e, int depth = 6);
