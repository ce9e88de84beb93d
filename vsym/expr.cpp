#include "expr.h"
#include <chrono>
VarSets VS; ExTable XT; SolverStats SS;

uint64_t evalOp(EOp op, unsigned w, uint64_t val, const Ex *k0, uint64_t a, uint64_t b, uint64_t c) {
  unsigned wa = k0 ? k0->w : w;
  switch (op) {
    case E_ADD: return (a + b) & mask(w);
    case E_SUB: return (a - b) & mask(w);
    case E_MUL: return (a * b) & mask(w);
    case E_UDIV: return b ? a / b : mask(w);
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? mask(w) : 1; if (y == -1) return (0 - (uint64_t) x) & mask(w); return (uint64_t) (x / y) & mask(w); }
    case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t) (x % y) & mask(w); }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & mask(w);
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (uint64_t) (sx(a, w) >> (b >= w ? w - 1 : b)) & mask(w);
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sx(a, wa) < sx(b, wa); case E_SLE: return sx(a, wa) <= sx(b, wa);
    case E_EXTRACT: return (a >> val) & mask(w);
    case E_ZEXT: return a; case E_SEXT: return (uint64_t) sx(a, wa) & mask(w);
    case E_ITE: return a ? b : c;
    case E_FADD: return w == 64 ? canon64(d_of(a) + d_of(b)) : canon32(f_of(a) + f_of(b));
    case E_FSUB: return w == 64 ? canon64(d_of(a) - d_of(b)) : canon32(f_of(a) - f_of(b));
    case E_FMUL: return w == 64 ? canon64(d_of(a) * d_of(b)) : canon32(f_of(a) * f_of(b));
    case E_FDIV: return w == 64 ? canon64(d_of(a) / d_of(b)) : canon32(f_of(a) / f_of(b));
    case E_FEQ: return wa == 64 ? d_of(a) == d_of(b) : f_of(a) == f_of(b);
    case E_FLT: return wa == 64 ? d_of(a) < d_of(b) : f_of(a) < f_of(b);
    case E_FLE: return wa == 64 ? d_of(a) <= d_of(b) : f_of(a) <= f_of(b);
    case E_FUNO: return wa == 64 ? (d_of(a) != d_of(a) || d_of(b) != d_of(b)) : (f_of(a) != f_of(a) || f_of(b) != f_of(b));
    case E_FEXT: return canon64((double) f_of(a));
    case E_FTRUNC: return canon32((float) d_of(a));
    case E_SITOFP: return w == 64 ? of_d((double) sx(a, wa)) : of_f((float) sx(a, wa));
    case E_UITOFP: return w == 64 ? of_d((double) a) : of_f((float) a);
    case E_FPTOSI: return fptosi_c(wa == 64 ? d_of(a) : f_of(a), w);
    case E_FPTOUI: return fptoui_c(wa == 64 ? d_of(a) : f_of(a), w);
    case E_FRND: { double d = wa == 64 ? d_of(a) : f_of(a); double r = val == 1 ? floor(d) : val == 2 ? ceil(d) : val == 3 ? trunc(d) : nearbyint(d); return w == 64 ? canon64(r) : canon32((float) r); }
    default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
}

static bool commut(EOp o) { return o == E_ADD || o == E_MUL || o == E_AND || o == E_OR || o == E_XOR || o == E_EQ || o == E_FADD || o == E_FMUL || o == E_FEQ; }
static int bitlen(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }

static bool isNanK(const Ex *e) { return isK(e) && (e->w == 64 ? d_of(e->val) != d_of(e->val) : e->w == 32 ? f_of(e->val) != f_of(e->val) : false); }
static bool isFPres(const Ex *e) { return e->op == E_FADD || e->op == E_FSUB || e->op == E_FMUL || e->op == E_FDIV || e->op == E_FEXT || e->op == E_FTRUNC || e->op == E_SITOFP || e->op == E_UITOFP || e->op == E_FRND; }
static bool isItofp(const Ex *e) { return (e->op == E_SITOFP || e->op == E_UITOFP) && e->w == 64 && e->k[0]->w <= 53; }
// sound bound on |e|: |e| <= 2^r and e is not NaN; -1: unknown
static int magBits(const Ex *e, int depth = 6) {
  if (depth == 0 || e->w != 64) return -1;
  switch (e->op) {
    case E_CONST: { double d = d_of(e->val); if (!std::isfinite(d)) return -1; int x; frexp(d, &x); return std::max(0, x); }
    case E_SITOFP: case E_UITOFP: return e->k[0]->w;
    case E_FADD: case E_FSUB: { int a = magBits(e->k[0], depth - 1), b = magBits(e->k[1], depth - 1); return a < 0 || b < 0 || std::max(a, b) > 900 ? -1 : std::max(a, b) + 1; }
    case E_FMUL: { int a = magBits(e->k[0], depth - 1), b = magBits(e->k[1], depth - 1); return a < 0 || b < 0 || a + b > 900 ? -1 : a + b; }
    case E_ITE: { int a = magBits(e->k[1], depth - 1), b = magBits(e->k[2], depth - 1); return a < 0 || b < 0 ? -1 : std::max(a, b); }
    case E_FRND: return magBits(e->k[0], depth - 1) < 0 ? -1 : magBits(e->k[0], depth - 1) + 1;
    default: return -1;
  }
}
static bool neverNaN(const Ex *e) { return e->op == E_SITOFP || e->op == E_UITOFP || magBits(e) >= 0; }
// ite(isnan(x), NaN, x) is x for every consumer that does not look at NaN payloads
static Ex *stripNaN(Ex *e) { while (e->op == E_ITE && isNanK(e->k[1]) && e->k[0]->op == E_FUNO && e->k[0]->k[0] == e->k[2] && e->k[0]->k[1] == e->k[2]) e = e->k[2]; return e; }
static bool liftable(const Ex *e) { return e->op == E_ITE && (isK(e->k[1]) || isK(e->k[2])); }

Ex *mk(EOp op, unsigned w, Ex *a, Ex *b, Ex *c, uint64_t val) {
  if (op >= E_FADD && op != E_SITOFP && op != E_UITOFP) { a = stripNaN(a); if (b) b = stripNaN(b); }
  if (op == E_EQ && !isK(a) && isK(b) && isFPres(a)) { if (isNanK(b) && b->val != (b->w == 64 ? NAN64 : NAN32)) return K(0, 1); if (isNanK(b) && neverNaN(a)) return K(0, 1); }
  if (op == E_EQ && isK(a) && !isK(b)) return mk(E_EQ, 1, b, a);
  if (op == E_EQ && isK(b) && isNanK(b) && a->op == E_ITE && a != stripNaN(a) && a->k[1] == b) return a->k[0];
  if (op == E_EQ && a != b) { for (int i = 0; i < 2; i++) { Ex *x = i ? b : a, *y = i ? a : b; if (y->op == E_ITE && !isK(x)) { if (y->k[2] == x) return mk(E_OR, 1, Not(y->k[0]), Eq(x, y->k[1])); if (y->k[1] == x) return mk(E_OR, 1, y->k[0], Eq(x, y->k[2])); } } 
    if (!isK(a) && !isK(b) && isItofp(a) && isItofp(b)) return Eq(a->op == E_SITOFP ? Sext(a->k[0], 64) : Zext(a->k[0], 64), b->op == E_SITOFP ? Sext(b->k[0], 64) : Zext(b->k[0], 64));
    if (isItofp(a) && isK(b)) { double d = d_of(b->val); if (!(fabs(d) < 1e16) || trunc(d) != d || (d == 0 && std::signbit(d))) return K(0, 1); return Eq(a->op == E_SITOFP ? Sext(a->k[0], 64) : Zext(a->k[0], 64), K((uint64_t) (int64_t) d, 64)); }
    if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0]) return mk(E_ITE, 1, a->k[0], Eq(a->k[1], b->k[1]), Eq(a->k[2], b->k[2])); }
  if (op >= E_FADD && op != E_SITOFP && op != E_UITOFP) {
    if (!b && liftable(a)) return mk(E_ITE, w, a->k[0], mk(op, w, a->k[1], nullptr, nullptr, val), mk(op, w, a->k[2], nullptr, nullptr, val));
    if (b && a == b && liftable(a) && op != E_FDIV) return mk(E_ITE, w, a->k[0], mk(op, w, a->k[1], a->k[1], nullptr, val), mk(op, w, a->k[2], a->k[2], nullptr, val));
    if (b && liftable(a) && (isK(b) || isItofp(b))) return mk(E_ITE, w, a->k[0], mk(op, w, a->k[1], b, nullptr, val), mk(op, w, a->k[2], b, nullptr, val));
    if (b && liftable(b) && (isK(a) || isItofp(a))) return mk(E_ITE, w, b->k[0], mk(op, w, a, b->k[1], nullptr, val), mk(op, w, a, b->k[2], nullptr, val));
    if (op == E_FUNO && a == b && neverNaN(a)) return K(0, 1);
    if (op == E_FDIV && w == 64 && isK(b)) { int x; double d = d_of(b->val), m = std::isfinite(d) ? frexp(d, &x) : 0; if ((m == 0.5 || m == -0.5) && x > -900 && x < 900) return mk(E_FMUL, w, a, K(of_d(1.0 / d), 64)); }
    if (op == E_FMUL && w == 64 && isK(b) && d_of(b->val) == 1.0) { if (!a->fp || isFPres(a)) if (isFPres(a)) return a; }
    if (op == E_FEQ && a == b) return Not(mk(E_FUNO, 1, a, a));
    if (op == E_FUNO && a != b) { if (isK(a)) std::swap(a, b); if (isK(b)) return isNanK(b) ? K(1, 1) : mk(E_FUNO, 1, a, a); if (neverNaN(a)) return mk(E_FUNO, 1, b, b); if (neverNaN(b)) return mk(E_FUNO, 1, a, a); }
  }
  // constant folding
  if (op == E_CONCAT) {
    if (isK(a) && isK(b)) return K((a->val << b->w) | b->val, w);
    if (isK(a) && a->val == 0) return Zext(b, w);
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->k[0] == b->k[0] && a->val == b->val + b->w) return Extract(a->k[0], b->val, w);
    // (x : e1) : e2 with e1,e2 adjacent
    if (a->op == E_CONCAT && a->k[1]->op == E_EXTRACT && b->op == E_EXTRACT && a->k[1]->k[0] == b->k[0] && a->k[1]->val == b->val + b->w)
      return mk(E_CONCAT, w, a->k[0], Extract(b->k[0], b->val, a->k[1]->w + b->w));
    if (a->op == E_EXTRACT && b->op == E_CONCAT && b->k[0]->op == E_EXTRACT && b->k[0]->k[0] == a->k[0] && a->val == b->k[0]->val + b->k[0]->w)
      return mk(E_CONCAT, w, Extract(a->k[0], b->k[0]->val, a->w + b->k[0]->w), b->k[1]);
    if (isK(b) && a->op == E_CONCAT && isK(a->k[1])) return mk(E_CONCAT, w, a->k[0], K((a->k[1]->val << b->w) | b->val, a->k[1]->w + b->w));
    if (isK(a) && b->op == E_CONCAT && isK(b->k[0])) return mk(E_CONCAT, w, K((a->val << b->k[0]->w) | b->k[0]->val, a->w + b->k[0]->w), b->k[1]);
    if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0]) return mk(E_ITE, w, a->k[0], mk(E_CONCAT, w, a->k[1], b->k[1]), mk(E_CONCAT, w, a->k[2], b->k[2]));
    if (a->op == E_ITE && b->op == E_CONCAT && b->k[0]->op == E_ITE && a->k[0] == b->k[0]->k[0]) return mk(E_CONCAT, w, mk(E_CONCAT, a->w + b->k[0]->w, a, b->k[0]), b->k[1]);
    if (b->op == E_ITE && a->op == E_CONCAT && a->k[1]->op == E_ITE && a->k[1]->k[0] == b->k[0]) return mk(E_CONCAT, w, a->k[0], mk(E_CONCAT, a->k[1]->w + b->w, a->k[1], b));
    // right-associate
    if (a->op == E_CONCAT) return mk(E_CONCAT, w, a->k[0], mk(E_CONCAT, a->k[1]->w + b->w, a->k[1], b));
    if (a->op == E_ZEXT) { Ex *x = mk(E_CONCAT, a->k[0]->w + b->w, a->k[0], b); return Zext(x, w); }
    return XT.get(op, w, 0, a, b, nullptr);
  }
  if (isK(a) && (!b || isK(b)) && (!c || isK(c))) return K(evalOp(op, w, val, a, a->val, b ? b->val : 0, c ? c->val : 0), w);
  if (b && commut(op)) { if (isK(a)) std::swap(a, b); else if (!isK(b) && a->id > b->id) std::swap(a, b); }
  switch (op) {
    case E_ADD:
      if (isK(b) && b->val == 0) return a;
      if (isK(b) && a->op == E_ADD && isK(a->k[1])) return mk(E_ADD, w, a->k[0], K(a->k[1]->val + b->val, w));
      if (w == 1) return mk(E_XOR, 1, a, b);
      break;
    case E_SUB:
      if (isK(b)) return mk(E_ADD, w, a, K(0 - b->val, w));
      if (a == b) return K(0, w);
      if (a->op == E_ADD && a->k[0] == b) return a->k[1];
      if (a->op == E_ADD && a->k[1] == b) return a->k[0];
      if (b->op == E_ADD && isK(b->k[1])) return mk(E_ADD, w, mk(E_SUB, w, a, b->k[0]), K(0 - b->k[1]->val, w));
      if (a->op == E_ADD && isK(a->k[1])) return mk(E_ADD, w, mk(E_SUB, w, a->k[0], b), a->k[1]);
      break;
    case E_MUL:
      if (isK(b)) { if (b->val == 0) return b; if (b->val == 1) return a; if ((b->val & (b->val - 1)) == 0) return mk(E_SHL, w, a, K(bitlen(b->val) - 1, w)); }
      break;
    case E_UDIV:
      if (isK(b)) { if (b->val == 1) return a; if (b->val && (b->val & (b->val - 1)) == 0) return mk(E_LSHR, w, a, K(bitlen(b->val) - 1, w)); }
      if (a->op == E_ZEXT && isK(b) && bitlen(b->val) <= a->k[0]->w) return Zext(mk(E_UDIV, a->k[0]->w, a->k[0], K(b->val, a->k[0]->w)), w);
      break;
    case E_UREM:
      if (isK(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(E_AND, w, a, K(b->val - 1, w));
      if (a->op == E_ZEXT && isK(b) && bitlen(b->val) <= a->k[0]->w) return Zext(mk(E_UREM, a->k[0]->w, a->k[0], K(b->val, a->k[0]->w)), w);
      break;
    case E_SDIV: case E_SREM:
      if (op == E_SREM && isK(b) && sx(b->val, w) < 0 && b->val != 1ull << (w - 1)) return mk(E_SREM, w, a, K(-b->val & mask(w), w));
      if (op == E_SREM && isK(b) && b->val && a->op == E_SUB && isK(a->k[0]) && a->k[0]->val == 0 && a->k[1]->op == E_SEXT) return mk(E_SUB, w, a->k[0], mk(E_SREM, w, a->k[1], b));
      if (op == E_SREM && a->op == E_SEXT && isK(b)) { unsigned n = a->k[0]->w; int64_t kv = sx(b->val, w); if (n > 1 && kv != 0 && kv != -1 && kv > -(1ll << (n - 1)) && kv < 1ll << (n - 1)) return Sext(mk(E_SREM, n, a->k[0], K((uint64_t) kv & mask(n), n)), w); }
      // non-negative operands: use unsigned
      if (a->op == E_ZEXT && isK(b) && sx(b->val, w) > 0) return mk(op == E_SDIV ? E_UDIV : E_UREM, w, a, b);
      break;
    case E_AND:
      if (a == b) return a;
      if (isK(b)) {
        if (b->val == 0) return b; if (b->val == mask(w)) return a;
        if (a->op == E_AND && isK(a->k[1])) return mk(E_AND, w, a->k[0], K(a->k[1]->val & b->val, w));
        if (a->op == E_ZEXT) { uint64_t m2 = b->val & mask(a->k[0]->w); return Zext(mk(E_AND, a->k[0]->w, a->k[0], K(m2, a->k[0]->w)), w); }
        if (a->op == E_CONCAT && w > 1) { Ex *hi = a->k[0], *lo = a->k[1]; return mk(E_CONCAT, w, mk(E_AND, hi->w, hi, K(b->val >> lo->w, hi->w)), mk(E_AND, lo->w, lo, K(b->val, lo->w))); }
        // low mask -> zext(extract)
        if ((b->val & (b->val + 1)) == 0 && w > 1) { unsigned n = bitlen(b->val); return Zext(Extract(a, 0, n), w); }
        // contiguous high mask
        { uint64_t inv = ~b->val & mask(w); if ((inv & (inv + 1)) == 0 && inv && w > 1) { unsigned n = bitlen(inv); return mk(E_CONCAT, w, Extract(a, n, w - n), K(0, n)); } }
        if (a->op == E_OR && isK(a->k[1])) return mk(E_OR, w, mk(E_AND, w, a->k[0], b), K(a->k[1]->val & b->val, w));
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return Zext(mk(E_AND, a->k[0]->w, a->k[0], b->k[0]), w);
      if (w == 1) { if (a->op == E_XOR && isK(a->k[1]) && a->k[0] == b) return K(0, 1); if (b->op == E_XOR && isK(b->k[1]) && b->k[0] == a) return K(0, 1); 
        if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a; }
      break;
    case E_OR:
      if (a == b) return a;
      if (isK(b)) {
        if (b->val == 0) return a; if (b->val == mask(w)) return b;
        if (a->op == E_OR && isK(a->k[1])) return mk(E_OR, w, a->k[0], K(a->k[1]->val | b->val, w));
        if (a->op == E_ZEXT && w > 1) { unsigned n = a->k[0]->w; return mk(E_CONCAT, w, K(b->val >> n, w - n), mk(E_OR, n, a->k[0], K(b->val, n))); }
        if (a->op == E_CONCAT) { Ex *hi = a->k[0], *lo = a->k[1]; return mk(E_CONCAT, w, mk(E_OR, hi->w, hi, K(b->val >> lo->w, hi->w)), mk(E_OR, lo->w, lo, K(b->val, lo->w))); }
      }
      if (w == 1) { if (a->op == E_XOR && isK(a->k[1]) && a->k[0] == b) return K(1, 1); if (b->op == E_XOR && isK(b->k[1]) && b->k[0] == a) return K(1, 1); 
        if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b; if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a; }
      // concat-or: (x : 0..) | zext(y) with no overlap
      if (a->op == E_ZEXT && b->op == E_CONCAT) std::swap(a, b);
      if (a->op == E_CONCAT && isK(a->k[1]) && a->k[1]->val == 0 && b->op == E_ZEXT && b->k[0]->w <= a->k[1]->w) return mk(E_CONCAT, w, a->k[0], Zext(b->k[0], a->k[1]->w));
      if (a->id > b->id && !isK(b)) std::swap(a, b);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return Zext(mk(E_OR, a->k[0]->w, a->k[0], b->k[0]), w);
      break;
    case E_XOR:
      if (a == b) return K(0, w);
      if (w == 64 && isK(b) && b->val == 1ull << 63 && isItofp(a)) { Ex *x = a->op == E_SITOFP ? Sext(a->k[0], 64) : Zext(a->k[0], 64); return mk(E_ITE, 64, Eq(x, K(0, 64)), K(1ull << 63, 64), mk(E_SITOFP, 64, Extract(mk(E_SUB, 64, K(0, 64), x), 0, a->k[0]->w + 1))); }
      if (w == 64 && isK(b) && liftable(a)) return mk(E_ITE, w, a->k[0], mk(E_XOR, w, a->k[1], b), mk(E_XOR, w, a->k[2], b));
      if (isK(b)) { if (b->val == 0) return a; if (a->op == E_XOR && isK(a->k[1])) return mk(E_XOR, w, a->k[0], K(a->k[1]->val ^ b->val, w));
        if (w == 1 && a->op == E_ULT) return mk(E_ULE, 1, a->k[1], a->k[0]);
        if (w == 1 && a->op == E_ULE) return mk(E_ULT, 1, a->k[1], a->k[0]);
        if (w == 1 && a->op == E_SLT) return mk(E_SLE, 1, a->k[1], a->k[0]);
        if (w == 1 && a->op == E_SLE) return mk(E_SLT, 1, a->k[1], a->k[0]);
        if (a->op == E_CONCAT) { Ex *hi = a->k[0], *lo = a->k[1]; return mk(E_CONCAT, w, mk(E_XOR, hi->w, hi, K(b->val >> lo->w, hi->w)), mk(E_XOR, lo->w, lo, K(b->val, lo->w))); }
      }
      break;
    case E_SHL:
      if (isK(b)) { if (b->val == 0) return a; if (b->val >= w) return K(0, w); return mk(E_CONCAT, w, Extract(a, 0, w - b->val), K(0, b->val)); }
      break;
    case E_LSHR:
      if (isK(b)) { if (b->val == 0) return a; if (b->val >= w) return K(0, w); return Zext(Extract(a, b->val, w - b->val), w); }
      break;
    case E_ASHR:
      if (isK(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : b->val; if (a->op == E_ZEXT) return mk(E_LSHR, w, a, K(s, w)); return Sext(Extract(a, s, w - s), w); }
      break;
    case E_EQ:
      if (a == b) return K(1, 1);
      if (isK(b)) {
        if (b->val > a->umax) return K(0, 1);
        if (a->w == 1) return b->val ? a : Not(a);
        if (a->op == E_ZEXT) { unsigned n = a->k[0]->w; if (b->val >> n) return K(0, 1); return Eq(a->k[0], K(b->val, n)); }
        if (a->op == E_SEXT) { unsigned n = a->k[0]->w; if (((uint64_t) sx(b->val & mask(n), n) & mask(a->w)) != b->val) return K(0, 1); return Eq(a->k[0], K(b->val, n)); }
        if (a->op == E_CONCAT) { Ex *hi = a->k[0], *lo = a->k[1]; Ex *x = isK(hi) ? K(hi->val == (b->val >> lo->w), 1) : Eq(hi, K(b->val >> lo->w, hi->w)); if (isK(x) && !x->val) return x; return mk(E_AND, 1, x, Eq(lo, K(b->val, lo->w))); }
        if (a->op == E_ADD && isK(a->k[1])) return Eq(a->k[0], K(b->val - a->k[1]->val, a->w));
        if (a->op == E_XOR && isK(a->k[1])) return Eq(a->k[0], K(b->val ^ a->k[1]->val, a->w));
        if (a->op == E_ITE) { if (isK(a->k[1]) && isK(a->k[2])) { bool p = a->k[1]->val == b->val, q = a->k[2]->val == b->val; if (p && q) return K(1, 1); if (p) return a->k[0]; if (q) return Not(a->k[0]); return K(0, 1); }
          if (isK(a->k[1])) { Ex *r = Eq(a->k[2], b); return a->k[1]->val == b->val ? mk(E_OR, 1, a->k[0], r) : mk(E_AND, 1, Not(a->k[0]), r); }
          if (isK(a->k[2])) { Ex *r = Eq(a->k[1], b); return a->k[2]->val == b->val ? mk(E_OR, 1, Not(a->k[0]), r) : mk(E_AND, 1, a->k[0], r); } }
      } else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
      else if (a->w == 64) {
        // exactly converted integers, possibly negated
        auto conv = [](Ex *e, Ex *&o, bool &ng) { ng = false; if (e->op == E_XOR && isK(e->k[1]) && e->k[1]->val == 1ull << 63) { ng = true; e = e->k[0]; }
          if ((e->op == E_SITOFP || e->op == E_UITOFP) && e->k[0]->w <= 52) { o = e->op == E_SITOFP ? Sext(e->k[0], 64) : Zext(e->k[0], 64); return true; } return false; };
        Ex *x, *y; bool nx, ny;
        if (conv(a, x, nx) && conv(b, y, ny)) { if (nx == ny) return Eq(x, y); return mk(E_AND, 1, Not(Eq(x, K(0, 64))), Eq(mk(E_SUB, 64, K(0, 64), x), y)); }
      }
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[0]->w == b->k[0]->w) return mk(E_AND, 1, Eq(a->k[0], b->k[0]), Eq(a->k[1], b->k[1]));
      break;
    case E_ULT:
      if (a == b) return K(0, 1);
      if (isK(b) && a->umax < b->val) return K(1, 1);
      if (isK(a) && b->umax <= a->val) return K(0, 1);
      if (isK(b) && b->val == 0) return K(0, 1);
      if (isK(b) && b->val == 1) return Eq(a, K(0, a->w));
      if (isK(a) && a->val == mask(a->w)) return K(0, 1);
      if (isK(a) && a->val == 0) return Not(Eq(b, a));
      if (a->op == E_ZEXT && isK(b)) { unsigned n = a->k[0]->w; if (b->val > mask(n)) return K(1, 1); return mk(E_ULT, 1, a->k[0], K(b->val, n)); }
      if (b->op == E_ZEXT && isK(a)) { unsigned n = b->k[0]->w; if (a->val >= mask(n)) return K(0, 1); return mk(E_ULT, 1, K(a->val, n), b->k[0]); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULT, 1, a->k[0], b->k[0]);
      break;
    case E_ULE:
      if (a == b) return K(1, 1);
      if (isK(b) && a->umax <= b->val) return K(1, 1);
      if (isK(a) && b->umax < a->val) return K(0, 1);
      if (isK(b) && b->val == mask(a->w)) return K(1, 1);
      if (isK(a) && a->val == 0) return K(1, 1);
      if (isK(b) && b->val == 0) return Eq(a, b);
      if (a->op == E_ZEXT && isK(b)) { unsigned n = a->k[0]->w; if (b->val >= mask(n)) return K(1, 1); return mk(E_ULE, 1, a->k[0], K(b->val, n)); }
      if (b->op == E_ZEXT && isK(a)) { unsigned n = b->k[0]->w; if (a->val > mask(n)) return K(0, 1); return mk(E_ULE, 1, K(a->val, n), b->k[0]); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk(E_ULE, 1, a->k[0], b->k[0]);
      break;
    case E_SLT: case E_SLE:
      if (a == b) return K(op == E_SLE, 1);
      { uint64_t sm = mask(a->w) >> 1; if (a->umax <= sm && b->umax <= sm) return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b); }
      // both operands non-negative
      if ((a->op == E_ZEXT && (b->op == E_ZEXT || (isK(b) && sx(b->val, b->w) >= 0))) || (b->op == E_ZEXT && isK(a) && sx(a->val, a->w) >= 0))
        return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b);
      if (a->op == E_ZEXT && isK(b)) return K(0, 1);  // b negative
      if (b->op == E_ZEXT && isK(a)) return K(1, 1);  // a negative
      if (a->op == E_SEXT && isK(b)) { unsigned n = a->k[0]->w; int64_t s = sx(b->val, b->w); if (s > sx(mask(n) >> 1, n)) return K(1, 1); if (s < sx(1ull << (n - 1), n)) return K(0, 1); return mk(op, 1, a->k[0], K(b->val, n)); }
      if (b->op == E_SEXT && isK(a)) { unsigned n = b->k[0]->w; int64_t s = sx(a->val, a->w); if (s > sx(mask(n) >> 1, n)) return K(0, 1); if (s < sx(1ull << (n - 1), n)) return K(1, 1); return mk(op, 1, K(a->val, n), b->k[0]); }
      break;
    case E_EXTRACT:
      if (val == 0 && w == a->w) return a;
      if (a->op == E_UITOFP && val == a->w - 1) return K(0, w);
      if (a->op == E_EXTRACT) return Extract(a->k[0], a->val + val, w);
      if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; if (val >= lw) return Extract(a->k[0], val - lw, w); if (val + w <= lw) return Extract(a->k[1], val, w); return mk(E_CONCAT, w, Extract(a->k[0], 0, val + w - lw), Extract(a->k[1], val, lw - val)); }
      if (a->op == E_ZEXT) { unsigned n = a->k[0]->w; if (val >= n) return K(0, w); if (val + w <= n) return Extract(a->k[0], val, w); return Zext(Extract(a->k[0], val, n - val), w); }
      if (a->op == E_SEXT) { unsigned n = a->k[0]->w; if (val + w <= n) return Extract(a->k[0], val, w); if (val < n) return Sext(Extract(a->k[0], val, n - val), w); return Sext(Extract(a->k[0], n - 1, 1), w); }
      if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) return mk(a->op, w, Extract(a->k[0], val, w), Extract(a->k[1], val, w));
      if (val == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL)) { if (isK(a->k[1]) || a->k[0]->op == E_ZEXT || a->k[0]->op == E_SEXT || a->k[1]->op == E_ZEXT || a->k[1]->op == E_SEXT) return mk(a->op, w, Extract(a->k[0], 0, w), Extract(a->k[1], 0, w)); }
      if (a->op == E_ITE && (isK(a->k[1]) || isK(a->k[2]))) return mk(E_ITE, w, a->k[0], Extract(a->k[1], val, w), Extract(a->k[2], val, w));
      break;
    case E_ZEXT:
      if (a->w == w) return a;
      if (a->op == E_ZEXT) return Zext(a->k[0], w);
      if (a->op == E_ITE && isK(a->k[1]) && isK(a->k[2])) return mk(E_ITE, w, a->k[0], K(a->k[1]->val, w), K(a->k[2]->val, w));
      break;
    case E_SEXT:
      if (a->w == w) return a;
      if (a->op == E_SEXT) return Sext(a->k[0], w);
      if (a->op == E_ZEXT) return Zext(a->k[0], w);
      if (a->op == E_ITE && isK(a->k[1]) && isK(a->k[2])) return mk(E_ITE, w, a->k[0], K(sx(a->k[1]->val, a->w), w), K(sx(a->k[2]->val, a->w), w));
      break;
    case E_ITE:
      if (isK(a)) return a->val ? b : c;
      if (b == c) return b;
      if (a->op == E_XOR && isK(a->k[1]) && a->k[1]->val) return mk(E_ITE, w, a->k[0], c, b);
      if (w == 1) { if (isK(b)) return b->val ? mk(E_OR, 1, a, c) : mk(E_AND, 1, Not(a), c); if (isK(c)) return c->val ? mk(E_OR, 1, Not(a), b) : mk(E_AND, 1, a, b); }
      if (b->op == E_ITE && b->k[0] == a) return mk(E_ITE, w, a, b->k[1], c);
      if (c->op == E_ITE && c->k[0] == a) return mk(E_ITE, w, a, b, c->k[2]);
      break;
    case E_FPTOSI: case E_FPTOUI:
      // negated exact integer
      if (op == E_FPTOSI && w == 64 && a->w == 64 && a->op == E_XOR && isK(a->k[1]) && a->k[1]->val == 1ull << 63 && (a->k[0]->op == E_SITOFP || a->k[0]->op == E_UITOFP) && a->k[0]->k[0]->w <= 50) {
        Ex *x = a->k[0]->k[0]; unsigned n = x->w + 1; Ex *y = a->k[0]->op == E_SITOFP ? Sext(x, n) : Zext(x, n); return Sext(mk(E_SUB, n, K(0, n), y), 64); }
      // exact integer round trip: fptosi(sitofp(x)) with x narrow enough
      if (a->w == 64 && op == E_FPTOUI && w == 32 && (a->op == E_SITOFP || a->op == E_UITOFP) && a->k[0]->w <= 53) { Ex *x = a->k[0]; Ex *y = a->op == E_SITOFP ? Sext(x, 64) : Zext(x, 64); return Extract(y, 0, 32); }
      if (a->w == 64 && op == E_FPTOUI && w < 32 && (a->op == E_SITOFP || a->op == E_UITOFP) && a->k[0]->w <= (a->op == E_SITOFP ? 32 : 31)) { Ex *x = a->k[0]; Ex *y = a->op == E_SITOFP ? Sext(x, 64) : Zext(x, 64); return Extract(y, 0, w); }
      if (a->w == 64 && op == E_FPTOSI && a->op == E_UITOFP && a->k[0]->w <= 31) return w >= 32 ? Zext(a->k[0], w) : Extract(Zext(a->k[0], 32), 0, w);
      if (a->w == 64 && a->op == E_SITOFP && a->k[0]->w <= 53 && op == E_FPTOSI) { Ex *x = a->k[0]; if (w >= x->w) return Sext(x, w); if (x->w <= 32 || w == 64) return Extract(x, 0, w); }
      if (a->w == 64 && a->op == E_UITOFP && a->k[0]->w <= 31) { Ex *x = a->k[0]; if (w >= x->w) return Zext(x, w); return Extract(x, 0, w); }
      break;
    case E_SITOFP:
      if (a->op == E_SEXT) return mk(E_SITOFP, w, a->k[0]);
      if (a->op == E_ZEXT) return mk(E_UITOFP, w, a->k[0]);
      if (a->umax <= mask(a->w) >> 1) return mk(E_UITOFP, w, a);
      break;
    case E_UITOFP:
      if (a->op == E_ZEXT) return mk(E_UITOFP, w, a->k[0]);
      if (bitlen(a->umax) < a->w) return mk(E_UITOFP, w, Extract(a, 0, std::max(1, bitlen(a->umax))));
      break;
    case E_FRND:
      if (a->op == E_SITOFP || a->op == E_UITOFP || a->op == E_FRND) return a;
      break;
    case E_FEXT: if (a->op == E_SITOFP && a->k[0]->w <= 24) return mk(E_SITOFP, 64, a->k[0]); if (a->op == E_UITOFP && a->k[0]->w <= 24) return mk(E_UITOFP, 64, a->k[0]); break;
    case E_FTRUNC: if (a->op == E_FEXT && a->k[0]->w == w) { /* value preserved; NaN payload aside */ } break;
    case E_FUNO:
      if ((a->op == E_SITOFP || a->op == E_UITOFP) && (isK(b) ? evalOp(E_FUNO, 1, 0, b, b->val, b->val, 0) == 0 : (b->op == E_SITOFP || b->op == E_UITOFP))) return K(0, 1);
      break;
    case E_FEQ: case E_FLT: case E_FLE: {
      // comparisons between exactly converted integers
      auto conv = [](Ex *e, Ex *&o) { if ((e->op == E_SITOFP || e->op == E_UITOFP) && e->w == 64 && e->k[0]->w <= 53) { o = e->op == E_SITOFP ? Sext(e->k[0], 64) : Zext(e->k[0], 64); return true; } return false; };
      Ex *x, *y; bool ca = conv(a, x), cb = conv(b, y);
      auto kint = [](Ex *e, Ex *&o) { double d; if (!isK(e) || e->w != 64) return false; d = d_of(e->val); if (!(fabs(d) < 9e15) || trunc(d) != d) return false; o = K((uint64_t) (int64_t) d, 64); return true; };
      if ((ca && (cb || kint(b, y))) || (cb && kint(a, x))) return op == E_FEQ ? Eq(x, y) : mk(op == E_FLT ? E_SLT : E_SLE, 1, x, y);
      break;
    }
    case E_FADD: case E_FSUB: case E_FMUL: {
      // exact integer arithmetic: |ints| small => stays exact
      auto conv = [](Ex *e, Ex *&o, int &bits) {
        if ((e->op == E_SITOFP) && e->w == 64 && e->k[0]->w <= 40) { o = Sext(e->k[0], 64); bits = e->k[0]->w; return true; }
        if ((e->op == E_UITOFP) && e->w == 64 && e->k[0]->w <= 39) { o = Zext(e->k[0], 64); bits = e->k[0]->w + 1; return true; }
        if (isK(e) && e->w == 64) { double d = d_of(e->val); if (fabs(d) < (1ll << 39) && trunc(d) == d && !(d == 0 && std::signbit(d))) { o = K((uint64_t) (int64_t) d, 64); bits = bitlen((uint64_t) llabs((long long) d)) + 1; return true; } }
        return false; };
      Ex *x, *y; int ba, bb;
      // adding or subtracting -0 / +0 from an exactly converted integer (never -0 itself) changes nothing
      if (w == 64 && isK(b) && d_of(b->val) == 0 && isItofp(a) && op != E_FMUL) return a;
      if (w == 64 && isK(a) && d_of(a->val) == 0 && isItofp(b) && op == E_FADD) return b;
      if (w == 64 && op == E_FMUL && conv(a, x, ba) && conv(b, y, bb) && ba + bb <= 53) {
        Ex *z = K(0, 64), *p = mk(E_SITOFP, 64, Extract(mk(E_MUL, 64, x, y), 0, ba + bb));
        Ex *nz = mk(E_OR, 1, mk(E_AND, 1, Eq(x, z), mk(E_SLT, 1, y, z)), mk(E_AND, 1, Eq(y, z), mk(E_SLT, 1, x, z)));
        return mk(E_ITE, 64, nz, K(of_d(-0.0), 64), p);
      }
      if (w == 64 && op != E_FMUL && conv(a, x, ba) && conv(b, y, bb)) {
        int n = std::max(ba, bb) + 1; // note: x+y==0 gives +0 and x-y==0 gives +0 in RNE, as sitofp(0)
        return mk(E_SITOFP, 64, Extract(mk(op == E_FADD ? E_ADD : E_SUB, 64, x, y), 0, n));
      }
      break;
    }
    default: break;
  }
  return XT.get(op, w, val, a, b, c);
}

static uint32_t g_stamp = 0;
static const Model *g_m;
static uint64_t ev(Ex *e) {
  if (e->op == E_CONST) return e->val;
  if (e->stamp == g_stamp) return e->ev;
  uint64_t r;
  switch (e->op) {
    case E_SYM: r = e->val < g_m->size() ? (*g_m)[e->val] : 0; break;
    case E_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case E_CONCAT: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
    default: r = evalOp(e->op, e->w, e->val, e->k[0], ev(e->k[0]), e->k[1] ? ev(e->k[1]) : 0, e->k[2] ? ev(e->k[2]) : 0);
  }
  e->stamp = g_stamp; e->ev = r; return r;
}
uint64_t evalEx(Ex *e, const Model &m) { g_stamp++; g_m = &m; return ev(e); }

// ---------------- Z3 ----------------
static Z3_context zc; static Z3_solver zs, zsf; static Z3_sort bvs[65], fp64, fp32, rms; static Z3_ast rne, rtz, rtn, rtp;
static unsigned RL, RLF;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void mkSolvers() {
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), RL); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p);
}
void solverInit(unsigned rl, unsigned rlf) {
  RL = rl; RLF = rlf; Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc, zerr);
  for (int i = 1; i <= 64; i++) bvs[i] = Z3_mk_bv_sort(zc, i);
  fp64 = Z3_mk_fpa_sort_64(zc); fp32 = Z3_mk_fpa_sort_32(zc); rne = Z3_mk_fpa_rne(zc); rtz = Z3_mk_fpa_rtz(zc); rtn = Z3_mk_fpa_rtn(zc); rtp = Z3_mk_fpa_rtp(zc);
  mkSolvers();
}
void solverAfterFork() {}

static Z3_ast zbv(Ex *e); static Z3_ast zbool(Ex *e);
static Z3_ast zfp(Ex *e) {
  if (e->zf) return e->zf;
  Z3_ast r; Z3_sort s = e->w == 64 ? fp64 : fp32;
  switch (e->op) {
    case E_FADD: r = Z3_mk_fpa_add(zc, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FSUB: r = Z3_mk_fpa_sub(zc, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FMUL: r = Z3_mk_fpa_mul(zc, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FDIV: r = Z3_mk_fpa_div(zc, rne, zfp(e->k[0]), zfp(e->k[1])); break;
    case E_FEXT: case E_FTRUNC: r = Z3_mk_fpa_to_fp_float(zc, rne, zfp(e->k[0]), s); break;
    case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(zc, rne, zbv(e->k[0]), s); break;
    case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(zc, rne, zbv(e->k[0]), s); break;
    case E_FRND: r = Z3_mk_fpa_round_to_integral(zc, e->val == 1 ? rtn : e->val == 2 ? rtp : e->val == 3 ? rtz : rne, zfp(e->k[0])); break;
    default: r = Z3_mk_fpa_to_fp_bv(zc, zbv(e), s);
  }
  Z3_inc_ref(zc, r); e->zf = r; return r;
}
static Z3_ast fpk(double d, Ex *like) { return like->w == 64 ? Z3_mk_fpa_numeral_double(zc, d, fp64) : Z3_mk_fpa_numeral_float(zc, (float) d, fp32); }
static Z3_ast bvk(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(zc, v, bvs[w]); }
static Z3_ast tosi(Z3_ast f, Ex *a, unsigned w) {
  Z3_ast lo = w == 64 ? Z3_mk_fpa_geq(zc, f, fpk(-9223372036854775808.0, a)) : a->w == 64 ? Z3_mk_fpa_gt(zc, f, fpk(-2147483649.0, a)) : Z3_mk_fpa_geq(zc, f, fpk(-2147483648.0, a));
  Z3_ast hi = Z3_mk_fpa_lt(zc, f, fpk(w == 64 ? 9223372036854775808.0 : 2147483648.0, a)); Z3_ast an[2] = {lo, hi};
  return Z3_mk_ite(zc, Z3_mk_and(zc, 2, an), Z3_mk_fpa_to_sbv(zc, rtz, f, w), bvk(1ull << (w - 1), w));
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(zc, b, bvk(1, 1), bvk(0, 1)); }
static Z3_ast zbv(Ex *e) {
  if (e->w == 1) { if (e->op == E_CONST) return bvk(e->val, 1); if (e->op != E_EXTRACT) return b2v(zbool(e)); }
  if (e->w != 1 && e->z) return e->z;
  Z3_ast r; Ex *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case E_CONST: r = bvk(e->val, e->w); break;
    case E_SYM: { char nm[24]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long) e->val); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), bvs[8]); break; }
    case E_ADD: r = Z3_mk_bvadd(zc, zbv(a), zbv(b)); break;
    case E_SUB: r = Z3_mk_bvsub(zc, zbv(a), zbv(b)); break;
    case E_MUL: r = Z3_mk_bvmul(zc, zbv(a), zbv(b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(zc, zbv(a), zbv(b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(zc, zbv(a), zbv(b)); break;
    case E_UREM: r = Z3_mk_bvurem(zc, zbv(a), zbv(b)); break;
    case E_SREM: r = Z3_mk_bvsrem(zc, zbv(a), zbv(b)); break;
    case E_AND: r = Z3_mk_bvand(zc, zbv(a), zbv(b)); break;
    case E_OR: r = Z3_mk_bvor(zc, zbv(a), zbv(b)); break;
    case E_XOR: r = Z3_mk_bvxor(zc, zbv(a), zbv(b)); break;
    case E_SHL: r = Z3_mk_bvshl(zc, zbv(a), zbv(b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(zc, zbv(a), zbv(b)); break;
    case E_ASHR: r = Z3_mk_bvashr(zc, zbv(a), zbv(b)); break;
    case E_CONCAT: r = Z3_mk_concat(zc, zbv(a), zbv(b)); break;
    case E_EXTRACT: r = Z3_mk_extract(zc, e->val + e->w - 1, e->val, zbv(a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(zc, e->w - a->w, zbv(a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - a->w, zbv(a)); break;
    case E_ITE: r = Z3_mk_ite(zc, zbool(a), zbv(b), zbv(e->k[2])); break;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FEXT: case E_FTRUNC: case E_SITOFP: case E_UITOFP: case E_FRND: {
      Z3_ast f = zfp(e); r = Z3_mk_ite(zc, Z3_mk_fpa_is_nan(zc, f), bvk(e->w == 64 ? NAN64 : NAN32, e->w), Z3_mk_fpa_to_ieee_bv(zc, f)); break; }
    case E_FPTOSI: { Z3_ast f = zfp(a); if (e->w == 64) r = tosi(f, a, 64); else { r = tosi(f, a, 32); if (e->w < 32) r = Z3_mk_extract(zc, e->w - 1, 0, r); } break; }
    case E_FPTOUI: { Z3_ast f = zfp(a);
      if (e->w == 64) { Z3_ast x = tosi(f, a, 64), y = tosi(Z3_mk_fpa_sub(zc, rne, f, fpk(9223372036854775808.0, a)), a, 64); r = Z3_mk_bvor(zc, x, Z3_mk_bvand(zc, y, Z3_mk_bvashr(zc, x, bvk(63, 64)))); }
      else if (e->w == 32) r = Z3_mk_extract(zc, 31, 0, tosi(f, a, 64)); else r = Z3_mk_extract(zc, e->w - 1, 0, tosi(f, a, 32)); break; }
    default: fprintf(stderr, "zbv op %d\n", e->op); abort();
  }
  if (e->w == 1) return r;
  Z3_inc_ref(zc, r); e->z = r; return r;
}
static Z3_ast zbool(Ex *e) {
  if (e->w != 1) { fprintf(stderr, "zbool w=%d\n", e->w); abort(); }
  if (e->z) return e->z;
  Z3_ast r; Ex *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
    case E_AND: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_and(zc, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zbool(a), zbool(b)}; r = Z3_mk_or(zc, 2, x); break; }
    case E_XOR: if (isK(b)) r = b->val ? Z3_mk_not(zc, zbool(a)) : zbool(a); else r = Z3_mk_xor(zc, zbool(a), zbool(b)); break;
    case E_EQ: if (a->w == 1) r = Z3_mk_iff(zc, zbool(a), zbool(b)); else r = Z3_mk_eq(zc, zbv(a), zbv(b)); break;
    case E_ULT: r = Z3_mk_bvult(zc, zbv(a), zbv(b)); break;
    case E_ULE: r = Z3_mk_bvule(zc, zbv(a), zbv(b)); break;
    case E_SLT: r = Z3_mk_bvslt(zc, zbv(a), zbv(b)); break;
    case E_SLE: r = Z3_mk_bvsle(zc, zbv(a), zbv(b)); break;
    case E_FEQ: r = Z3_mk_fpa_eq(zc, zfp(a), zfp(b)); break;
    case E_FLT: r = Z3_mk_fpa_lt(zc, zfp(a), zfp(b)); break;
    case E_FLE: r = Z3_mk_fpa_leq(zc, zfp(a), zfp(b)); break;
    case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(zc, zfp(a)), Z3_mk_fpa_is_nan(zc, zfp(b))}; r = Z3_mk_or(zc, 2, x); break; }
    case E_ITE: r = Z3_mk_ite(zc, zbool(a), zbool(b), zbool(e->k[2])); break;
    default: r = Z3_mk_eq(zc, zbv(e), bvk(1, 1));
  }
  Z3_inc_ref(zc, r); e->z = r; return r;
}

struct CacheEnt { std::vector<uint32_t> key; SRes res; std::vector<std::pair<uint32_t, uint8_t>> asg; };
static std::unordered_multimap<uint64_t, CacheEnt> qcache;
extern "C" void vsym_query_hook() __attribute__((weak));

SRes solve(const std::vector<Ex *> &cs, Ex *q, Model &m) {
  if (isK(q)) { if (!q->val) return S_UNSAT; return S_SAT; }
  // slice
  std::vector<uint32_t> vars = VS.sets[q->vs]; std::vector<Ex *> sl; std::vector<bool> used(cs.size(), false); bool ch = true, fp = q->fp;
  static std::vector<uint8_t> in; std::fill(in.begin(), in.end(), 0);
  auto addv = [&](uint32_t v) { if (v >= in.size()) in.resize(v + 64, 0); if (!in[v]) { in[v] = 1; return true; } return false; };
  std::vector<uint32_t> allv; for (auto v : vars) if (addv(v)) allv.push_back(v);
  while (ch) { ch = false; for (size_t i = 0; i < cs.size(); i++) if (!used[i]) { const auto &s = VS.sets[cs[i]->vs]; bool hit = false; for (auto v : s) if (v < in.size() && in[v]) { hit = true; break; }
      if (hit) { used[i] = true; sl.push_back(cs[i]); fp |= cs[i]->fp; for (auto v : s) if (addv(v)) { allv.push_back(v); ch = true; } } } }
  std::vector<uint32_t> key; for (auto e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(0); key.push_back(q->id);
  uint64_t h = VarSets::h(key); auto rg = qcache.equal_range(h);
  for (auto i = rg.first; i != rg.second; ++i) if (i->second.key == key) { SS.cacheHits++; if (i->second.res == S_SAT) for (auto &p : i->second.asg) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; } return i->second.res; }
  auto t0 = std::chrono::steady_clock::now();
  SS.queries++; if (fp) SS.fpQueries++;
  if (allv.size() == 1) { // the slice mentions one byte: complete truth table, memoised per expression
    struct TT { uint64_t b[4]; }; static std::unordered_map<uint32_t, TT> tts; uint32_t v = allv[0]; TT acc = {{~0ull, ~0ull, ~0ull, ~0ull}}; Model mm(v + 1, 0);
    auto tt = [&](Ex *e) -> const TT & { auto it = tts.find(e->id); if (it != tts.end()) return it->second; TT t = {{0, 0, 0, 0}}; for (int x = 0; x < 256; x++) { mm[v] = (uint8_t) x; if (evalEx(e, mm) == 1) t.b[x >> 6] |= 1ull << (x & 63); } return tts[e->id] = t; };
    for (auto e : sl) { const TT &t = tt(e); for (int i = 0; i < 4; i++) acc.b[i] &= t.b[i]; }
    { const TT &t = tt(q); for (int i = 0; i < 4; i++) acc.b[i] &= t.b[i]; }
    CacheEnt ce; ce.key = key; ce.res = S_UNSAT; SS.table++;
    for (int i = 0; i < 4; i++) if (acc.b[i]) { uint8_t x = (uint8_t) (i * 64 + __builtin_ctzll(acc.b[i])); if (v >= m.size()) m.resize(v + 1, 0); m[v] = x; ce.res = S_SAT; ce.asg.push_back({v, x}); break; }
    if (ce.res == S_SAT) SS.sat++; else SS.unsat++;
    SS.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); qcache.insert({h, ce}); return ce.res;
  }
  Z3_solver s = zs; bool tmp = false;
  if (fp) { // one-shot solver via tactic pipeline is markedly better for FP
    Z3_tactic t = Z3_mk_tactic(zc, "qffpbv"); Z3_tactic_inc_ref(zc, t); s = Z3_mk_solver_from_tactic(zc, t); Z3_solver_inc_ref(zc, s); Z3_tactic_dec_ref(zc, t); tmp = true;
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), RLF); Z3_solver_set_params(zc, s, p); Z3_params_dec_ref(zc, p);
  } else Z3_solver_push(zc, s);
  for (auto e : sl) Z3_solver_assert(zc, s, zbool(e));
  Z3_solver_assert(zc, s, zbool(q));
  Z3_lbool r = Z3_solver_check(zc, s);
  CacheEnt ce; ce.key = key; ce.res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
  if (ce.res == S_UNKNOWN && getenv("VSYM_SHOW")) fprintf(stderr, "UNKNOWN %s\n", exStr(q).c_str());
  if (r == Z3_L_TRUE) {
    SS.sat++; Z3_model zm = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, zm);
    for (auto v : allv) { Z3_ast o = nullptr; uint64_t x = 0; if (Z3_model_eval(zc, zm, zbv(Sym(v)), true, &o) && o) { Z3_inc_ref(zc, o); Z3_get_numeral_uint64(zc, o, &x); Z3_dec_ref(zc, o); } if (v >= m.size()) m.resize(v + 1, 0); m[v] = (uint8_t) x; ce.asg.push_back({v, (uint8_t) x}); }
    Z3_model_dec_ref(zc, zm);
    // sanity: the model must satisfy the query under our own evaluator
    bool ok = evalEx(q, m) == 1; for (auto e : sl) if (ok && evalEx(e, m) != 1) ok = false;
    if (!ok) { static int warned = 0; if (warned++ < 5) fprintf(stderr, "vsym: WARNING model/evaluator mismatch on %s\n", exStr(q).c_str()); ce.res = S_UNKNOWN; SS.unknown++; }
  } else if (r == Z3_L_FALSE) SS.unsat++; else SS.unknown++;
  if (tmp) Z3_solver_dec_ref(zc, s); else Z3_solver_pop(zc, s, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); SS.time += dt; if (dt > SS.maxq) SS.maxq = dt;
  { static const char *sl_ = getenv("VSYM_SLOW"); if (sl_ && dt > atof(sl_)) { fprintf(stderr, "SLOW %.2fs r=%d n=%zu q=%s\n", dt, (int) r, sl.size(), exStr(q, 7).c_str()); for (auto e : sl) fprintf(stderr, "    & %s\n", exStr(e, 5).c_str()); } }
  qcache.insert({h, ce}); return ce.res;
}

std::string exStr(Ex *e, int d) {
  static const char *n[] = {"K", "s", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "a>>", "==", "u<", "u<=", "s<", "s<=", "concat", "extract", "zext", "sext", "ite", "f+", "f-", "f*", "f/", "f==", "f<", "f<=", "funo", "fext", "ftrunc", "si2fp", "ui2fp", "fp2si", "fp2ui", "frnd"};
  char b[64]; if (e->op == E_CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long) e->val, e->w); return b; }
  if (e->op == E_SYM) { snprintf(b, 64, "s%llu", (unsigned long long) e->val); return b; }
  if (d == 0) return "..";
  std::string s = std::string("(") + n[e->op]; if (e->op == E_EXTRACT) { snprintf(b, 64, "[%llu+%d]", (unsigned long long) e->val, e->w); s += b; } else if (e->op == E_ZEXT || e->op == E_SEXT) { snprintf(b, 64, "%d", e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exStr(e->k[i], d - 1); return s + ")";
}
