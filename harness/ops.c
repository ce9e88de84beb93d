#include "eng.h"
/* ---------- oracle ---------- */
enum { T_NUM, T_BOOL, T_ERR, T_UNK };
typedef struct { int t; double n; } V;
static const char *const OPS[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "<", ">", "<=", ">=", "===", "!==", "&&", "||"};
static const int PREC[] = {9, 9, 10, 10, 10, 5, 3, 4, 8, 8, 8, 7, 7, 7, 7, 6, 6, 2, 1};
#define NOPS 19
static V num(double d) { V v = {T_NUM, d}; return v; }
static V boo(int b) { V v = {T_BOOL, b ? 1 : 0}; return v; }
static V bad(int t) { V v = {t, 0}; return v; }
static int truthy(V v) { return v.t == T_BOOL ? v.n != 0 : v.n != 0 && v.n == v.n; }
static int isi32(double d) { return d >= -2147483648.0 && d <= 2147483647.0 && d == (double) (int64_t) d; }
static V apply2(V a, V b, int op) {
  if (a.t >= T_ERR) return a; if (b.t >= T_ERR) return b;
  if (op == 15 || op == 16) { int eq = a.t == b.t && a.n == b.n; return boo(op == 15 ? eq : !eq); }
  if (op >= 11 && op <= 14) { if (a.t != T_NUM || b.t != T_NUM) return bad(T_UNK); return boo(op == 11 ? a.n < b.n : op == 12 ? a.n > b.n : op == 13 ? a.n <= b.n : a.n >= b.n); }
  if (a.t != T_NUM || b.t != T_NUM) return bad(T_ERR);
  switch (op) { case 0: return num(a.n + b.n); case 1: return num(a.n - b.n); case 2: return num(a.n * b.n); case 3: return b.n == 0 ? num(u2d(0x7ff8000000000000ull)) : num(a.n / b.n); }
  if (!isi32(a.n) || !isi32(b.n)) return bad(T_UNK);
  { int64_t x = (int64_t) a.n, y = (int64_t) b.n, r;
    switch (op) {
      case 4: if (y == 0) return num(u2d(0x7ff8000000000000ull)); r = x % y; return num(r == 0 && (d2u(a.n) >> 63) ? (x == 0 ? 0.0 : -0.0) : (double) r);
      case 5: return num((double) (x & y)); case 6: return num((double) (x | y)); case 7: return num((double) (x ^ y));
      case 8: if (y < 0 || y > 31) return bad(T_UNK); r = (int64_t) ((uint64_t) x << y); if (r != (int32_t) r) return bad(T_UNK); return num((double) r);
      case 9: if (y < 0 || y > 31) return bad(T_UNK); return num((double) ((int32_t) x >> y));
      case 10: if (y < 0 || y > 31) return bad(T_UNK); return num((double) ((uint32_t) x >> y)); } }
  return bad(T_UNK);
}
static V X[8]; static int O[8]; static char LOG[16]; static int nlog;
static V ev(int lo, int hi) { /* operands lo..hi, operators O[lo..hi-1] between them */
  int i, k = -1; if (lo == hi) { LOG[nlog++] = (char) ('a' + lo); return X[lo]; }
  for (i = lo; i < hi; i++) if (k < 0 || PREC[O[i]] <= PREC[O[k]]) k = i;
  V a = ev(lo, k); if (a.t >= T_ERR) return a;
  if (O[k] == 17) return truthy(a) ? ev(k + 1, hi) : a;
  if (O[k] == 18) return truthy(a) ? a : ev(k + 1, hi);
  return apply2(a, ev(k + 1, hi), O[k]);
}
static void expect(struct mjs *m, const char *src, V want, const char *what) {
  mjs_val_t r; mjs_err_t e;
  if (want.t == T_UNK) { vs_reach("unspecified"); return; }
  e = h_run(m, src, &r);
  if (want.t == T_ERR) { CHECK(e == MJS_TYPE_ERROR, "unsupported operand types give a type error"); vs_reach("type error"); return; }
  CHECK(e == MJS_OK, "supported operands give no error");
  if (want.t == T_BOOL) { CHECK(mjs_is_boolean(r) && (mjs_get_bool(m, r) != 0) == (want.n != 0), what); vs_reach("bool"); }
  else { CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), want.n), what); vs_reach("num"); }
}
static const char *const VN[] = {"x", "y", "z", "w"};
static double small(const char *n) { unsigned char c; vs_sym(&c, 1, n); ASSUME(c < 16); return (double) (int) c; }
/* chains of K binary operators over small integers: grouping, short circuit, evaluation order */
static void chain(int k, int ord) {
  struct mjs *m = h_new(); char src[160]; int i; src[0] = 0;
  for (i = 0; i < k; i++) O[i] = vs_choose(NOPS, "op");
  for (i = 0; i <= k; i++) { X[i] = num(i && O[i - 1] == 3 ? (vs_choose(2, "d") ? 4.0 : 0.0) : small(VN[i])); h_setn(m, VN[i], X[i].n); } /* division in chains: by 4 or 0 */
  if (ord) h_ok(m, "let log='';let f=function(s,v){log=log+s;return v;};");
  for (i = 0; i <= k; i++) {
    if (i) { strcat(src, OPS[O[i - 1]]); }
    if (ord) { strcat(src, "f('"); { char t[2] = {(char) ('a' + i), 0}; strcat(src, t); } strcat(src, "',"); strcat(src, VN[i]); strcat(src, ")"); } else strcat(src, VN[i]);
  }
  nlog = 0; V want = ev(0, k);
  expect(m, src, want, "operators group by precedence and associativity");
  if (ord && want.t < T_ERR) CHECK(h_streq(m, h_get(m, "log"), LOG, nlog), "operands are evaluated once, left to right, with short circuit");
}
void H_chain2(void) { chain(2, 0); }
void H_chain3(void) { chain(3, 0); }
void H_order2(void) { chain(2, 1); }
/* any doubles */
void H_double_ops(void) {
  static const int ops[] = {0, 1, 2, 3, 11, 12, 13, 14, 15, 16}; struct mjs *m = h_new(); char src[16] = "x"; double x, y; int op = ops[vs_choose(10, "op")];
  vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); h_setn(m, "x", x); h_setn(m, "y", y); strcat(src, OPS[op]); strcat(src, "y");
  expect(m, src, apply2(num(x), num(y), op), "binary operator on doubles");
}
void H_int_ops(void) {
  struct mjs *m = h_new(); char src[16] = "x"; INTT x, y; int op = 4 + vs_choose(7, "op");
  vs_sym(&x, sizeof x, "x"); vs_sym(&y, sizeof y, "y"); if (op >= 8) ASSUME(y >= 0 && y <= 31); if (op == 4) { static const int ds[] = {1, 2, 3, 7, -5, 1000, -2147483647}; y = (INTT) ds[vs_choose(7, "div")];
#ifdef REM_HI
    { static const uint16_t hs[] = {0x8000, 0, 0xffff, 0x7fff, 0x1234, 0xedcc}; uint16_t lo; vs_sym(&lo, 2, "lo"); x = (INTT) ((uint32_t) hs[vs_choose(6, "hi")] << 16 | lo); }
#endif
  } if (op == 8) ASSUME((int64_t) ((int64_t) x * ((int64_t) 1 << y)) == (int32_t) ((int64_t) x * ((int64_t) 1 << y)));
  h_setn(m, "x", x); h_setn(m, "y", y); strcat(src, OPS[op]); strcat(src, "y");
  double want; int64_t a = x, b = y;
  switch (op) { case 4: want = (double) (a % b); if (x < 0 && want == 0) want = -0.0; break; case 5: want = (double) (x & y); break; case 6: want = (double) (x | y); break; case 7: want = (double) (x ^ y); break;
    case 8: want = (double) (int32_t) ((uint64_t) a << b); break; case 9: want = (double) ((int32_t) x >> y); break; default: want = (double) ((uint32_t) (int32_t) x >> y); }
  expect(m, src, num(want), "integer operator");
  { char s2[24] = "let v=x;v"; strcat(s2, OPS[op]); strcat(s2, "=y;v"); expect(m, s2, num(want), "integer compound assignment"); }
  { char s2[24] = "~x"; expect(m, s2, num((double) ~(int64_t) x), "bitwise not"); }
}
/* unary operators mixed with binary ones */
static const char *const UN[] = {"", "-", "!", "~", "+", "- -", "!!", "-~"};
static V unary(V v, int u) {
  switch (u) { case 0: case 4: return v; case 1: return num(-v.n); case 2: return boo(!truthy(v)); case 3: return num((double) ~(int64_t) v.n); case 5: return num(-(-v.n)); case 6: return boo(truthy(v)); default: return num(-(double) ~(int64_t) v.n); }
}
void H_unary(void) {
  struct mjs *m = h_new(); char src[64]; int op = vs_choose(NOPS, "op"); double x = small("x"), y = op == 3 || op == 4 ? 4 * vs_choose(2, "d") : small("y"); int u = vs_choose(8, "u"), v = vs_choose(8, "v"), post = vs_choose(4, "post"); h_setn(m, "x", x); h_setn(m, "y", y); h_ok(m, "let o={a:{b:x},f:function(){return x;}};let arr=[x];");
  strcpy(src, UN[u]); strcat(src, post == 0 ? "x" : post == 1 ? "o.a.b" : post == 2 ? "o.f()" : "arr[0]"); strcat(src, " "); strcat(src, OPS[op]); strcat(src, " "); strcat(src, UN[v]); strcat(src, "y");
  X[0] = unary(num(x), u); X[1] = unary(num(y), v); O[0] = op; nlog = 0; expect(m, src, ev(0, 1), "unary operators bind tighter than binary ones");
}
void H_unary_double(void) {
  struct mjs *m = h_new(); double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x);
  expect(m, "-x", num(h_isnan(x) ? x : -x), "negation"); expect(m, "+x", num(x), "unary plus"); expect(m, "!x", boo(!(x != 0 && x == x)), "logical not");
  expect(m, "let a=x;a++", num(x), "postfix increment yields the old value"); expect(m, "a", num(x + 1), "postfix increment stores the new value");
  expect(m, "a=x;a--", num(x), "postfix decrement yields the old value"); expect(m, "a", num(x - 1), "postfix decrement stores the new value");
  expect(m, "a=x;++a", num(x + 1), "prefix increment yields the new value"); expect(m, "a", num(x + 1), "prefix increment stores the new value");
  expect(m, "a=x;--a", num(x - 1), "prefix decrement yields the new value"); expect(m, "a", num(x - 1), "prefix decrement stores the new value");
  expect(m, "let o={p:x};o.p++;o.p", num(x + 1), "increment of a property"); expect(m, "o.p=x;o.p--;o['p']", num(x - 1), "decrement of a property");
  expect(m, "let k='p';o[k]=x;o[k]++ ;o.p", num(x + 1), "increment of a computed property");
}
/* assignment forms x targets, any doubles */
void H_assign(void) {
  static const char *const as[] = {"=", "+=", "-=", "*=", "/="}; static const char *const tg[] = {"v", "o.p", "o['p']", "o.q.r", "o[k]"};
  struct mjs *m = h_new(); double x, y, w; int a = vs_choose(5, "a"), t = vs_choose(5, "t"); char src[64]; vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); h_setn(m, "x", x); h_setn(m, "y", y);
  h_ok(m, "let v=x;let o={p:x,q:{r:x},s:7};let k='p';let u=3;");
  w = a == 0 ? y : apply2(num(x), num(y), a - 1).n;
  strcpy(src, tg[t]); strcat(src, as[a]); strcat(src, "y"); expect(m, src, num(w), "an assignment yields the value assigned"); expect(m, tg[t], num(w), "an assignment stores the value");
  expect(m, "o.s", num(7), "other properties unchanged"); expect(m, "u", num(3), "other variables unchanged");
  if (t != 0) expect(m, "v", num(x), "unrelated variable unchanged"); else expect(m, "o.p", num(x), "unrelated property unchanged");
  strcpy(src, "u="); strcat(src, tg[t]); strcat(src, as[a]); strcat(src, "y"); h_ok(m, "v=x;o.p=x;o.q.r=x;"); expect(m, src, num(w), "chained assignment is right associative"); expect(m, "u", num(w), "chained assignment stores left");
}
void H_assign_int(void) {
  struct mjs *m = h_new(); double x = small("x"), y = small("y"); int op = 4 + vs_choose(7, "op"); char src[64]; h_setn(m, "x", x); h_setn(m, "y", y); h_ok(m, "let o={p:x};");
  strcpy(src, "o.p"); strcat(src, OPS[op]); strcat(src, "=y;o.p"); expect(m, src, apply2(num(x), num(y), op), "integer compound assignment");
}
/* ternary: choice, nesting, no evaluation of the other branch, precedence against every binary operator and assignment */
void H_ternary(void) {
  struct mjs *m = h_new(); double x, y = small("y"), z = small("z"), w = small("w"); vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_setn(m, "y", y); h_setn(m, "z", z); h_setn(m, "w", w); V vx = num(x);
  h_ok(m, "let n=0;let f=function(v){n++;return v;};");
  expect(m, "x?y:z", num(truthy(vx) ? y : z), "conditional");
  expect(m, "x?f(y):f(z);n", num(1), "one branch is evaluated"); expect(m, "(x?f(1):2)+n", num(truthy(vx) ? 3 : 3), "branch values");
  expect(m, "x?y?1:2:z?3:4", num(truthy(vx) ? (y != 0 ? 1 : 2) : (z != 0 ? 3 : 4)), "nested conditionals are right associative");
  expect(m, "x?1:y?2:z?3:4", num(truthy(vx) ? 1 : y != 0 ? 2 : z != 0 ? 3 : 4), "conditional chain");
  expect(m, "let v=x?y:z;v", num(truthy(vx) ? y : z), "assignment of a conditional"); expect(m, "v=5;v+=x?y:z;v", num(5 + (truthy(vx) ? y : z)), "compound assignment of a conditional");
  expect(m, "x||y?1:2", num(truthy(vx) || y != 0 ? 1 : 2), "conditional binds weaker than ||"); expect(m, "x&&y?z+1:w+2", num(truthy(vx) && y != 0 ? z + 1 : w + 2), "conditional binds weaker than +");
  expect(m, "!x?y:z", num(!truthy(vx) ? y : z), "negated condition"); expect(m, "(x?y:z)*2", num((truthy(vx) ? y : z) * 2), "parenthesised conditional");
}
/* parentheses override precedence */
void H_paren(void) {
  struct mjs *m = h_new(); char src[64]; int i, a = vs_choose(NOPS, "op"), b = vs_choose(NOPS, "op"); int cz = a == 3 || b == 3 || a == 4 || b == 4; X[0] = num(small("x")); X[1] = num(cz ? 6 * vs_choose(2, "d") : small("y")); X[2] = num(cz ? 2 * vs_choose(2, "d") : small("z")); for (i = 0; i < 3; i++) h_setn(m, VN[i], X[i].n);
  int left = vs_choose(2, "left"); src[0] = 0; O[0] = a; O[1] = b; nlog = 0; V want;
  if (left) { strcpy(src, "(x"); strcat(src, OPS[a]); strcat(src, "y)"); strcat(src, OPS[b]); strcat(src, "z"); X[1] = ev(0, 1); O[1] = b; want = X[1].t >= T_ERR ? X[1] : ev(1, 2); }
  else { V l = X[0]; strcpy(src, "x"); strcat(src, OPS[a]); strcat(src, "(y"); strcat(src, OPS[b]); strcat(src, "z)"); if (a == 17 && !truthy(l)) want = l; else if (a == 18 && truthy(l)) want = l; else { V r = ev(1, 2); want = r.t >= T_ERR || a >= 17 ? r : apply2(l, r, a); } }
  expect(m, src, want, "parentheses group");
}
/* all pairs of types */
static const char *const TV[] = {"x", "'s'", "'long string value'", "true", "false", "null", "undefined", "({})", "[]", "fn", "print", "''", "0", "NaN"};
static const int TK[] = {0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 1, 0, 0}; static const int TT[] = {-1, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0};
#define NTV 14
void H_types(void) {
  struct mjs *m = h_new(); char src[80]; int a = vs_choose(NTV, "a"), b = vs_choose(NTV, "b"), op = vs_choose(NOPS, "op"); double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_ok(m, "let fn=function(){};let va=0,vb=0;");
  strcpy(src, "va="); strcat(src, TV[a]); h_ok(m, src); strcpy(src, "vb="); strcat(src, TV[b]); h_ok(m, src); mjs_val_t A = h_get(m, "va"), B = h_get(m, "vb"), r; mjs_err_t e;
  strcpy(src, "va"); strcat(src, OPS[op]); strcat(src, "vb"); int ta = TT[a] < 0 ? (x != 0 && x == x) : TT[a];
  if (op < 15 && (TK[a] == 8 || TK[b] == 8)) return; /* host pointers have arithmetic of their own */
  e = h_run(m, src, &r);
  if (op >= 17) { CHECK(e == MJS_OK && r == ((op == 17) == (ta != 0) ? B : A), "logical operators yield one of their operands"); vs_reach("logical"); return; }
  if (op == 15 || op == 16) { int eq; if (TK[a] != TK[b]) eq = 0; else if (TK[a] == 0) { double p = mjs_get_double(m, A), q = mjs_get_double(m, B); eq = p == q; } else if (TK[a] == 1) eq = (a == b); else if (TK[a] == 5 || TK[a] == 6) eq = 0; else eq = a == b; if (TK[a] == 8 || TK[b] == 8) { if (a != b) return; }
    CHECK(e == MJS_OK && mjs_is_boolean(r) && (mjs_get_bool(m, r) != 0) == (eq == (op == 15)), "strict equality across types"); vs_reach("equality"); return; }
  if (op >= 11) { if (TK[a] == 0 && TK[b] == 0) { V w = apply2(num(mjs_get_double(m, A)), num(mjs_get_double(m, B)), op); CHECK(e == MJS_OK && (mjs_get_bool(m, r) != 0) == (w.n != 0), "comparison of numbers"); } return; }
  if (TK[a] == 1 && TK[b] == 1 && op == 0) { CHECK(e == MJS_OK && mjs_is_string(r), "string concatenation"); return; }
  if (!(TK[a] == 0 && TK[b] == 0)) { CHECK(e == MJS_TYPE_ERROR, "operators do not convert types implicitly"); vs_reach("type error"); }
}
/* == and != are not part of the language */
void H_loose_eq(void) { struct mjs *m = h_new(); double x, y; vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); h_setn(m, "x", x); h_setn(m, "y", y); mjs_val_t r; CHECK(h_run(m, "x==y", &r) != MJS_OK, "== is rejected"); CHECK(h_run(m, "x!=y", &r) != MJS_OK, "!= is rejected"); }
