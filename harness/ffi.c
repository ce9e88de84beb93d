#include "eng.h"
/* C13/C14/C15: calls between scripts and C through declared signatures */
typedef intptr_t W; typedef double D; typedef float F;
/* ---- C functions of every supported calling pattern; each records what it was given */
static int ncalls, nrec, in_range; static uint64_t rec[6]; static char cls[7];
static W retw; static bool retb; static double retd; static float retf;
static const int *tys; static char rb[6][12]; static size_t rl[6];
static void rW(int i, W v) { rec[i] = (uint64_t) v; cls[i] = 'W'; if (tys && tys[i] == 2) { rl[i] = i % 2 ? 7 : 3; memcpy(rb[i], (char *) v, rl[i] + 1); } if (tys && tys[i] == 6) { struct mg_str *s = (struct mg_str *) v; rl[i] = s->len; CHECK(s->len < 8, "length of a counted string"); memcpy(rb[i], s->p, s->len); rb[i][s->len] = 0; } } static void rD(int i, D v) { rec[i] = d2u(v); cls[i] = 'D'; } static void rF(int i, F v) { uint32_t u; memcpy(&u, &v, 4); rec[i] = u; cls[i] = 'F'; }
#define FN(T, R, pat, params, body) static T f##T##_##pat params { ncalls++; body; return R; }
#define FNS(pat, params, body) FN(W, retw, pat, params, body) FN(bool, retb, pat, params, body) FN(D, retd, pat, params, body) FN(F, retf, pat, params, body)
#define P1(A) FNS(A, (A a), (r##A(0, a), nrec = 1))
#define P2(A, B) FNS(A##B, (A a, B b), (r##A(0, a), r##B(1, b), nrec = 2))
#define P3(A, B, C) FNS(A##B##C, (A a, B b, C c), (r##A(0, a), r##B(1, b), r##C(2, c), nrec = 3))
#define P23(X) P2(W, X) P2(X, W) P2(X, X) P3(W, W, X) P3(W, X, W) P3(W, X, X) P3(X, W, W) P3(X, W, X) P3(X, X, W) P3(X, X, X)
FNS(v, (void), nrec = 0) P1(W) P1(D) P1(F) P2(W, W) P3(W, W, W) P23(D) P23(F)
FNS(WWWW, (W a, W b, W c, W d), (rW(0, a), rW(1, b), rW(2, c), rW(3, d), nrec = 4)) FNS(WWWWW, (W a, W b, W c, W d, W e), (rW(0, a), rW(1, b), rW(2, c), rW(3, d), rW(4, e), nrec = 5)) FNS(WWWWWW, (W a, W b, W c, W d, W e, W f), (rW(0, a), rW(1, b), rW(2, c), rW(3, d), rW(4, e), rW(5, f), nrec = 6))
struct ent { const char *pat; void *fn[4]; };
#define E(p) { #p, { (void *) fW_##p, (void *) fbool_##p, (void *) fD_##p, (void *) fF_##p } }
static const struct ent ENT[] = { { "", { (void *) fW_v, (void *) fbool_v, (void *) fD_v, (void *) fF_v } }, E(W), E(D), E(F), E(WW), E(WD), E(DW), E(DD), E(WF), E(FW), E(FF), E(WWW), E(WWD), E(WDW), E(WDD), E(DWW), E(DWD), E(DDW), E(DDD), E(WWF), E(WFW), E(WFF), E(FWW), E(FWF), E(FFW), E(FFF), E(WWWW), E(WWWWW), E(WWWWWW) };
#define NENT (sizeof ENT / sizeof ENT[0])
static void *found; static char looked[200]; static int nlook;
static void *resolver(void *h, const char *name) { (void) h; nlook++; strncpy(looked, name, 199); return found; }
static const char *const TY[] = { "int", "double", "char *", "bool", "void *", "float", "struct mg_str *" }; static const char TC[] = "WDWWWFW";
static const char *const RT[] = { "int", "bool", "double", "float", "char *", "void *", "void" }; static const int RC[] = { 0, 1, 2, 3, 0, 0, 0 };
static int32_t iv[6]; static double dv[6]; static float fv[6]; static int8_t bv[6]; static char sv[6][8]; static int sl[6]; static uint64_t pv[6]; static char rs[8];
static const char *const NM[] = { "a", "b", "c", "d", "e", "f" };
/* declare a random signature, pass symbolic values, compare */
static void one(int n, const int *ty, int r) {
  struct mjs *m = h_new(); char sig[160], pat[8], call[40] = "fn("; int i, k; mjs_val_t res; mjs_err_t e; const struct ent *en = NULL; int nd = 0, nf = 0; size_t l0 = vs_live();
  (void) l0; strcpy(sig, "let fn=ffi('"); strcat(sig, RT[r]); strcat(sig, " fname("); for (i = 0; i < n; i++) { if (i) { strcat(sig, ", "); strcat(call, ","); } strcat(sig, TY[ty[i]]); strcat(call, NM[i]); pat[i] = TC[ty[i]]; nd += pat[i] == 'D'; nf += pat[i] == 'F'; } pat[n] = 0; if (n == 0 && vs_choose(2, "void")) strcat(sig, "void"); strcat(sig, ")');"); strcat(call, ")");
  for (k = 0; k < (int) NENT; k++) if (!strcmp(ENT[k].pat, pat)) en = &ENT[k]; if ((nd && (r == 3)) || (nf && r == 2)) en = NULL; found = en ? en->fn[RC[r]] : (void *) fW_WWWWWW; mjs_set_ffi_resolver(m, resolver);
  for (i = 0; i < n; i++) { char nm[4] = "v0"; nm[1] = '0' + i; switch (ty[i]) {
    case 0: vs_sym(&iv[i], 4, nm); h_setn(m, NM[i], iv[i]); break; case 1: vs_sym(&dv[i], 8, nm); h_setn(m, NM[i], dv[i]); break; case 5: vs_sym(&fv[i], 4, nm); h_setn(m, NM[i], fv[i]); break;
    case 3: vs_sym(&bv[i], 1, nm); mjs_set(m, mjs_get_global(m), NM[i], 1, mjs_mk_boolean(m, bv[i])); break;
    case 4: vs_sym(&pv[i], 8, nm); vs_assume(pv[i] < 1ull << 48); mjs_set(m, mjs_get_global(m), NM[i], 1, mjs_mk_foreign(m, (void *) pv[i])); break;
    default: sl[i] = i % 2 ? 7 : 3; vs_sym(sv[i], 8, nm); sv[i][sl[i]] = 0; mjs_set(m, mjs_get_global(m), NM[i], 1, mjs_mk_string(m, sv[i], sl[i], 1)); } }
  vs_sym(&retw, 8, "rw"); if (r == 4) { vs_sym(rs, 7, "rs"); rs[7] = 0; vs_assume(rs[0] != 0); retw = (W) rs; } if (r == 5) vs_assume((uint64_t) retw < 1ull << 48); { uint8_t t; vs_sym(&t, 1, "rb"); retb = t & 1; } vs_sym(&retd, 8, "rd"); vs_sym(&retf, 4, "rf");
  h_ok(m, sig); CHECK(nlook == 1 && !strcmp(looked, "fname"), "the named function is looked up"); ncalls = 0; tys = ty; e = h_run(m, call, &res); tys = NULL;
  if (!en) { CHECK(e != MJS_OK && ncalls == 0, "an unsupported combination is an error"); vs_reach("unsupported"); return; }
  CHECK(e == MJS_OK, "the call succeeds"); CHECK(ncalls == 1 && nrec == n, "called once"); vs_reach("called");
  for (i = 0; i < n; i++) switch (ty[i]) {
    case 0: CHECK((int32_t) rec[i] == iv[i], "int argument"); break; case 1: CHECK(h_same(u2d(rec[i]), dv[i]), "double argument"); break; case 5: { uint32_t u; float g; memcpy(&u, &fv[i], 4); memcpy(&g, &rec[i], 4); CHECK(((uint32_t) rec[i] == u) | ((fv[i] != fv[i]) & (g != g)), "float argument"); break; }
    case 3: CHECK((rec[i] & 0xff) == (bv[i] != 0), "bool argument"); break; case 4: CHECK(rec[i] == pv[i], "pointer argument"); break;
    default: CHECK(rl[i] == (size_t) sl[i] && h_bytes_eq(rb[i], sv[i], sl[i]) && rb[i][sl[i]] == 0, "string argument"); break; }
  switch (r) { case 0: CHECK(mjs_is_number(res) && mjs_get_double(m, res) == (double) (int32_t) retw, "int result"); break; case 1: CHECK(mjs_is_boolean(res) && !!mjs_get_bool(m, res) == retb, "bool result"); break;
    case 2: CHECK(mjs_is_number(res) && h_same(mjs_get_double(m, res), retd), "double result"); break; case 3: CHECK(mjs_is_number(res) && ((mjs_get_double(m, res) == (double) retf) | ((retf != retf) & h_isnan(mjs_get_double(m, res)))), "float result"); break;
    case 4: { size_t l = strlen(rs); CHECK(h_streq(m, res, rs, l), "string result"); break; } case 5: CHECK(mjs_is_foreign(res) && (W) mjs_get_ptr(m, res) == retw, "pointer result"); break; default: CHECK(mjs_is_undefined(res), "no result"); }
  h_idle(m, "idle");
}
void H_ffi2(void) { int n = vs_choose(3, "n"), ty[6], i; for (i = 0; i < n; i++) ty[i] = vs_choose(7, "ty"); one(n, ty, vs_choose(7, "ret")); }
void H_ffi3(void) { int ty[6], i; for (i = 0; i < 3; i++) ty[i] = vs_choose(7, "ty"); one(3, ty, vs_choose(7, "ret")); }
#ifndef FREE6
#define FREE6 2
#endif
void H_ffi6(void) { static const int c[] = { 0, 4, 3, 2, 6 }; int ty[6], i, n = 4 + vs_choose(3, "n"), fp = vs_choose(n + 1, "fp"); for (i = 0; i < n; i++) ty[i] = i < FREE6 ? c[vs_choose(5, "ty")] : c[(i * 2 + fp) % 5]; if (fp) ty[fp - 1] = vs_choose(2, "double") ? 1 : 5; one(n, ty, vs_choose(4, "ret")); }
/* strings: the callee sees the bytes and the terminator; counted strings also NULs */
static const char *gs; static size_t gl; static char copy[16]; static int order;
static int take_s(const char *s, int n, const char *t) { int i; gs = s; if (s) for (i = 0; i <= n; i++) copy[i] = s[i]; order = t ? (unsigned char) t[0] : -1; return n; }
static int take_m(struct mg_str *s, int n, struct mg_str *t) { int i; gl = s->len; for (i = 0; i < (int) s->len && i < 15; i++) copy[i] = s->p[i]; order = t->len ? (unsigned char) t->p[0] : -1; (void) n; return 1; }
void H_ffi_str(void) { struct mjs *m = h_new(); int n = vs_choose(10, "len"), k = vs_choose(4, "kind"); char b[12], c; mjs_val_t r; vs_sym(b, 10, "b"); vs_sym(&c, 1, "c"); mjs_set_ffi_resolver(m, resolver); h_sets(m, "s", b, n); h_sets(m, "t", &c, 1); h_setn(m, "n", n); found = k == 2 ? (void *) take_m : (void *) take_s; if (k == 3) h_ok(m, "s=(s+'0123456789').slice(0,n)");
  r = h_ok(m, k == 2 ? "let f=ffi('int q(struct mg_str *,int,struct mg_str*)');f(s,n,t)" : k == 1 ? "let f=ffi('int q(void *,int,void*)');f(s,n,t)" : "let f=ffi('int q(char *,int,char*)');f(s,n,t)"); CHECK(h_bytes_eq(copy, b, n), "string bytes"); CHECK(k == 2 ? gl == (size_t) n : copy[n] == 0, "length or terminator"); CHECK(order == (unsigned char) c, "second string"); CHECK(h_streq(m, h_get(m, "s"), b, n), "the script's string is unchanged"); (void) r;
  gs = "x"; found = (void *) take_s; h_ok(m, "let g=ffi('int q(char *,int,char*)');g(null,0,null);"); CHECK(gs == NULL && order == -1, "null is a NULL pointer"); vs_reach("end"); }
static char *null_s(void) { return NULL; }
void H_ffi_null(void) { struct mjs *m = h_new(); mjs_val_t r; mjs_set_ffi_resolver(m, resolver); found = (void *) null_s; r = h_ok(m, "ffi('char *q(void)')()"); CHECK(mjs_is_null(r), "a NULL string is null"); r = h_ok(m, "ffi('void *q()')()"); CHECK(mjs_is_null(r) || (mjs_is_foreign(r) && mjs_get_ptr(m, r) == NULL), "a NULL pointer"); found = NULL; h_run(m, "ffi('int q(int)')", &r); CHECK(m->error != MJS_OK, "an unknown function is an error"); mjs_set_ffi_resolver(m, NULL); CHECK(h_run(m, "ffi('int q(int)')", &r) != MJS_OK, "no resolver is an error"); }
/* wrong number or type of arguments */
void H_ffi_bad(void) {
  static const char *const ty[] = { "int", "bool", "char *", "void *", "struct mg_str *" }; static const char *const val[] = { "1", "true", "'s'", "null", "undefined", "{}", "[]", "function(){}", "print", "long" };
  static const char ok[5][11] = { "1100000000", "1100000000", "0011000001", "0011000011", "0010000001" }; struct mjs *m = h_new(); int t = vs_choose(5, "type"), v = vs_choose(10, "value"), pos = vs_choose(3, "pos"), i; char s[120] = "let f=ffi('int q("; mjs_val_t r; mjs_err_t e; h_sets(m, "long", "a longer string", 15);
  mjs_set_ffi_resolver(m, resolver); found = (void *) fW_WWW; for (i = 0; i < 3; i++) { if (i) strcat(s, ","); strcat(s, i == pos ? ty[t] : "int"); } strcat(s, ")');"); h_ok(m, s); strcpy(s, "f("); for (i = 0; i < 3; i++) { if (i) strcat(s, ","); strcat(s, i == pos ? val[v] : "7"); } strcat(s, ")"); ncalls = 0; e = h_run(m, s, &r);
  if (ok[t][v] == '1') CHECK(e == MJS_OK && ncalls == 1, "accepted"); else { CHECK(e != MJS_OK, "a wrong type is an error"); CHECK(ncalls == 0, "the function is not called with a wrong type"); } h_idle(m, "idle"); ncalls = 0; CHECK(h_run(m, "f()", &r) != MJS_OK && h_run(m, "f(1,2)", &r) != MJS_OK && h_run(m, "f(1,2,3,4)", &r) != MJS_OK && h_run(m, "f(1,2,3,4,5,6,7,8)", &r) != MJS_OK && ncalls == 0, "a wrong number of arguments is an error"); h_idle(m, "idle"); }
/* calls nested in arguments of calls, and several functions at once */
static int add2(int a, int b) { return (int) ((unsigned) a + (unsigned) b); } static double half(double x) { return x / 2; }
static void *two(void *h, const char *n) { (void) h; return !strcmp(n, "add2") ? (void *) add2 : !strcmp(n, "half") ? (void *) half : NULL; }
void H_ffi_nest(void) { struct mjs *m = h_new(); int16_t x, y; mjs_val_t r; vs_sym(&x, 2, "x"); vs_sym(&y, 2, "y"); mjs_set_ffi_resolver(m, two); h_setn(m, "x", x); h_setn(m, "y", y); r = h_ok(m, "let add=ffi('int add2(int,int)');let half=ffi('double half(double)');let o={add:add,v:x};[half(add(add(x,y),add(y,x))),o.add(o.v,half(2)),add(x,1)-add(1,x),half(x)+half(y)]");
  CHECK(mjs_get_double(m, mjs_array_get(m, r, 0)) == x + y, "nested"); CHECK(mjs_get_double(m, mjs_array_get(m, r, 1)) == x + 1, "as a method"); CHECK(mjs_get_double(m, mjs_array_get(m, r, 2)) == 0, "twice"); CHECK(mjs_get_double(m, mjs_array_get(m, r, 3)) == x / 2.0 + y / 2.0, "doubles"); { mjs_val_t f = h_get(m, "add"), a = MJS_UNDEFINED; CHECK(mjs_call(m, &a, f, MJS_UNDEFINED, 2, mjs_mk_number(m, x), mjs_mk_number(m, y)) == MJS_OK && mjs_get_double(m, a) == x + y, "called by the host"); } h_idle(m, "idle"); }
