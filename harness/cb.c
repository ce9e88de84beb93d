#include "eng.h"
/* C15: callbacks of scripts invoked by C code */
typedef intptr_t W; typedef W (*cb_t)(W, W, W, W, W, W);
static struct { cb_t f; void *u; } reg[6]; static int nreg; static struct mjs *M;
static void reg_fu(void *f, void *u) { reg[nreg].f = (cb_t) f; reg[nreg++].u = u; }
static void reg_uf(void *u, void *f) { reg_fu(f, u); }
static void reg_mid(int a, void *f, void *p, void *u) { (void) a; (void) p; reg_fu(f, u); }
static W now(void *f, void *u, int a) { return ((cb_t) f)((W) u, a, 0, 0, 0, 0); }
static void do_gc(void) { mjs_gc(M, 1); }
static W again(int k) { return reg[k].f((W) reg[k].u, 100 + k, 0, 0, 0, 0); }
static void *rs(void *h, const char *n) { (void) h; return !strcmp(n, "reg_fu") ? (void *) reg_fu : !strcmp(n, "reg_uf") ? (void *) reg_uf : !strcmp(n, "reg_mid") ? (void *) reg_mid : !strcmp(n, "now") ? (void *) now : !strcmp(n, "do_gc") ? (void *) do_gc : !strcmp(n, "again") ? (void *) again : NULL; }
static struct mjs *start(void) { M = h_new(); nreg = 0; mjs_set_ffi_resolver(M, rs); return M; }
static mjs_val_t at(mjs_val_t a, int i) { return mjs_array_get(M, a, i); }
/* every type at every position */
static const char *const TY[] = { "int", "bool", "char *", "void *", "struct mg_str *" }; static const char *const RT[] = { "void", "int", "bool" };
static const char *const NM[] = { "a", "b", "c", "d", "e", "f" };
static char sv[6][12]; static struct mg_str ms[6];
static void values(W *w, int n, int u, const int *ty) { int j; for (j = 0; j < n; j++) { char nm[4] = "w0"; if (j == u) continue; nm[1] = '0' + j; vs_sym(&w[j], 8, nm); switch (ty[j]) { case 1: vs_assume(((uint64_t) w[j]) < 2); break; case 3: vs_assume((uint64_t) w[j] < 1ull << 48); break; case 2: case 4: { int l = j % 2 ? 3 : 7, i; vs_sym(sv[j], 8, "s"); if (ty[j] == 2) for (i = 0; i < l; i++) vs_assume(sv[j][i] != 0); sv[j][l] = 0; ms[j].p = sv[j]; ms[j].len = l; w[j] = ty[j] == 2 ? (W) sv[j] : (W) &ms[j]; } } } }
static void received(mjs_val_t got, const W *w, int n, int u, const int *ty) { int j; CHECK(mjs_array_length(M, got) == (unsigned long) n, "argument count"); for (j = 0; j < n; j++) { mjs_val_t v = at(got, j); if (j == u) continue; switch (ty[j]) { case 0: CHECK(mjs_is_number(v) && mjs_get_double(M, v) == (double) (int32_t) w[j], "int argument"); break; case 1: CHECK(mjs_is_boolean(v) && !!mjs_get_bool(M, v) == (w[j] != 0), "bool argument"); break; case 3: CHECK(mjs_is_foreign(v) && (W) mjs_get_ptr(M, v) == w[j], "pointer argument"); break; default: { size_t l; const char *p; CHECK(mjs_is_string(v), "string argument"); p = mjs_get_string(M, &v, &l); CHECK(l == (j % 2 ? 3u : 7u) && h_bytes_eq(p, sv[j], l), "string bytes"); } } } }
#ifndef FREE
#define FREE 2
#endif
void H_cb_types(void) {
  struct mjs *m = start(); int n = 1 + vs_choose(6, "n"), u = vs_choose(n, "ud"), r = vs_choose(3, "ret"), ty[6], j, k, w0 = vs_choose(2, "when"); char s[400] = "let f=ffi('void reg_fu("; W w[6], out; int32_t rv; mjs_val_t got;
  strcat(s, RT[r]); strcat(s, " (*)("); for (j = 0, k = 0; j < n; j++) { if (j) strcat(s, ","); if (j == u) { strcat(s, "userdata"); ty[j] = -1; } else { ty[j] = k < FREE ? vs_choose(5, "ty") : (j * 2 + n) % 5; k++; strcat(s, TY[ty[j]]); } }
  strcat(s, "),userdata)'); let got=[0]; let U={id:77}; let cnt=0; f(function("); for (j = 0; j < n; j++) { if (j) strcat(s, ","); strcat(s, NM[j]); } strcat(s, "){cnt++; got=["); for (j = 0; j < n; j++) { if (j) strcat(s, ","); strcat(s, NM[j]); } strcat(s, "]; return R;},U);"); 
  vs_sym(&rv, 4, "rv"); if (r == 2) mjs_set(m, mjs_get_global(m), "R", 1, mjs_mk_boolean(m, rv & 1)); else h_setn(m, "R", rv); h_ok(m, s); CHECK(nreg == 1, "registered"); values(w, n, u, ty); w[u] = (W) reg[0].u; if (w0) mjs_gc(m, 1);
  for (j = n; j < 6; j++) w[j] = 0x5555555555; out = reg[0].f(w[0], w[1], w[2], w[3], w[4], w[5]); got = h_get(m, "got"); received(got, w, n, u, ty); CHECK(at(got, u) == h_get(m, "U"), "its own user data"); CHECK(mjs_get_double(m, h_get(m, "cnt")) == 1, "called once");
  if (r == 1) CHECK((int32_t) out == rv, "int returned"); if (r == 2) CHECK((out & 0xff) == (rv & 1), "bool returned"); h_idle(m, "idle"); vs_reach("end"); }
/* one double and the user data */
typedef W (*dp_t)(double, W); typedef W (*pd_t)(W, double);
void H_cb_double(void) { struct mjs *m = start(); int o = vs_choose(2, "order"); double d; int32_t rv, out; mjs_val_t got; vs_sym(&d, 8, "d"); vs_sym(&rv, 4, "rv"); h_setn(m, "R", rv); h_ok(m, o ? "let got=0; ffi('void reg_uf(userdata,int (*)(double,userdata))')('me',function(x,y){got=[x,y]; return R;})" : "let got=0; ffi('void reg_fu(int (*)(userdata,double),userdata)')(function(y,x){got=[x,y]; return R;},'me')");
  out = (int32_t) (o ? ((dp_t) reg[0].f)(d, (W) reg[0].u) : ((pd_t) reg[0].f)((W) reg[0].u, d)); got = h_get(m, "got"); CHECK(h_same(mjs_get_double(m, at(got, 0)), d), "double argument"); CHECK(h_streq(m, at(got, 1), "me", 2), "user data"); CHECK(out == rv, "returned"); h_idle(m, "idle"); }
/* four registrations sharing functions and user data, used in any order, collected in between, some released */
#define SETUP "let log=[]; let F=ffi('void reg_fu(int (*)(userdata,int),userdata)'); let G=ffi('void reg_mid(int,int (*)(userdata,int),void*,userdata)'); let a=function(u,x){log.push('a',u,x); return x+1;}; let b=function(u,x){log.push('b',u,x); return x+2;}; let u1={n:'one'}; let u2='two'; "
static const char *const WHO = "abab"; 
#ifndef NCALLS
#define NCALLS 3
#endif
void H_cb_many(void) {
  struct mjs *m = start(); int fr = vs_choose(6, "free"), c[NCALLS], i; int32_t x[NCALLS], out[NCALLS]; mjs_val_t log, u1; static const char *const FR[] = { "", "ffi_cb_free(a,u2)", "ffi_cb_free(b,u1)", "ffi_cb_free(a,{n:'one'})", "ffi_cb_free(b,u2); ffi_cb_free(b,u2)", "ffi_cb_free(a,u1); F(a,u1);" }; static const int dead[] = { -1, 2, 1, -1, 3, 0 };
  h_ok(m, SETUP "F(a,u1); G(1,b,null,u1); F(a,u2); G(2,b,null,u2);"); CHECK(nreg == 4, "registered"); if (vs_choose(2, "gc0")) mjs_gc(m, 1); h_ok(m, FR[fr]); if (fr == 5) { CHECK(nreg == 5, "registered again"); reg[0] = reg[4]; }
  for (i = 0; i < NCALLS; i++) { c[i] = vs_choose(4, "which"); if (c[i] == dead[fr] && fr != 5) vs_exit(); vs_sym(&x[i], 4, "x"); vs_assume((x[i] < 2000000000) & (x[i] > -2000000000)); out[i] = (int32_t) reg[c[i]].f((W) reg[c[i]].u, x[i], 0, 0, 0, 0); if (i == 0) mjs_gc(m, 1); }
  log = h_get(m, "log"); u1 = h_get(m, "u1"); CHECK(mjs_array_length(m, log) == 3 * NCALLS, "every call made once");
  for (i = 0; i < NCALLS; i++) { char w[2] = { WHO[c[i]], 0 }; CHECK(h_streq(m, at(log, 3 * i), w, 1), "the registered function"); CHECK(c[i] < 2 ? at(log, 3 * i + 1) == u1 : h_streq(m, at(log, 3 * i + 1), "two", 3), "its user data"); CHECK(mjs_get_double(m, at(log, 3 * i + 2)) == x[i] && out[i] == x[i] + (w[0] == 'a' ? 1 : 2), "argument and result"); }
  h_idle(m, "idle"); vs_reach("end"); }
/* one function and user data registered with different declarations */
void H_cb_sigs(void) { struct mjs *m = start(); int32_t x, y; int k = vs_choose(2, "order"), i; mjs_val_t log; vs_sym(&x, 4, "x"); vs_sym(&y, 4, "y"); h_ok(m, "let log=[]; let A=ffi('void reg_fu(void (*)(userdata,int,int),userdata)'); let B=ffi('void reg_fu(void (*)(int,userdata),userdata)'); let C=ffi('void reg_uf(userdata,bool (*)(userdata,void*))'); let f=function(p,q,r){log.push(p,q,r); return true;}; A(f,9); B(f,9); C(9,f); A(f,9);"); CHECK(nreg == 4, "registered"); mjs_gc(m, 1);
  for (i = 0; i < 3; i++) { int w = k ? 2 - i : i; if (w == 0) reg[3].f((W) reg[3].u, x, y, 0, 0, 0); else if (w == 1) reg[1].f(y, (W) reg[1].u, 0, 0, 0, 0); else CHECK((reg[2].f((W) reg[2].u, 4096, 0, 0, 0, 0) & 255) == 1, "bool result"); }
  log = h_get(m, "log"); CHECK(mjs_array_length(m, log) == 9, "three calls"); { int a = k ? 6 : 0, c = k ? 0 : 6; CHECK(mjs_get_double(m, at(log, a)) == 9 && mjs_get_double(m, at(log, a + 1)) == x && mjs_get_double(m, at(log, a + 2)) == y, "first declaration"); CHECK(mjs_get_double(m, at(log, 3)) == y && mjs_get_double(m, at(log, 4)) == 9 && mjs_is_undefined(at(log, 5)), "second declaration"); CHECK(mjs_get_double(m, at(log, c)) == 9 && mjs_is_foreign(at(log, c + 1)) && (W) mjs_get_ptr(m, at(log, c + 1)) == 4096, "third declaration"); } }
/* callbacks during a call, nested, registering and releasing while they run, collecting at any point */
void H_cb_nested(void) { struct mjs *m = start(); int g = vs_choose(4, "gc"), w = vs_choose(4, "prog"); int16_t x; mjs_val_t r; static const char *const P[] = {
    "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let gcf=ffi('void do_gc()'); let o={v:3}; let f=function(u,i){if(G===1){gcf();} let t={k:u.v+i}; if(G===2){gcf();} if(i<=0){return t.k;} return t.k+n(f,u,i-1);}; let s='str'+'ing long'; n(f,o,3)*1000+X+(s==='string long'?0:1)",
    "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let gcf=ffi('void do_gc()'); let acc=0; for(let i=0;i<4;i++){ acc+=n(function(u,j){ if(G===1){gcf();} return u.a*10+j; },{a:i},i); if(G===2){gcf();} } acc*1000+X",
    "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let gcf=ffi('void do_gc()'); let f=function(u,i){ ffi_cb_free(f,u); if(G===1){gcf();} let z=['x'+u.s,i]; if(G===2){gcf();} return z[0]==='xabcdefgh'?z[1]:0-1;}; n(f,{s:'abcdefgh'},7)*1000+n(f,{s:'abcdefgh'},8)+X",
    "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let F=ffi('void reg_fu(int (*)(userdata,int),userdata)'); let ag=ffi('int again(int)'); let gcf=ffi('void do_gc()'); n(function(u,i){ for(let q=0;q<3;q++){ F(function(u,i){ if(G===2){gcf();} return u.b+i; },{b:q*1000}); if(G===1){gcf();} } return ag(2)+ag(0)+ag(1); },null,5)*1000+X" }; static const int W0[] = { 3 * 4 + 6, 66, 0, 3303 };
  vs_sym(&x, 2, "x"); h_setn(m, "G", g); h_setn(m, "X", x); if (g == 3) mjs_gc(m, 0); h_run(m, P[w], &r); CHECK(m->error == MJS_OK, "script runs"); CHECK(mjs_is_number(r) && mjs_get_double(m, r) == (w == 2 ? 7008 : W0[w] * 1000.0) + x, "result of nested callbacks"); h_idle(m, "idle"); }
/* everything is released */
static const char *const FR[] = { "", "ffi_cb_free(a,u1); ffi_cb_free(a,u2); ffi_cb_free(b,u1); ffi_cb_free(b,u2)", "ffi_cb_free(a,u2)", "ffi_cb_free(b,'no'); ffi_cb_free(a,u1);ffi_cb_free(a,u1)" };
void H_cb_leak(void) { size_t l0 = vs_live(), l[4]; struct mjs *m = start(); int fr = vs_choose(4, "free"), i; mjs_val_t f = MJS_UNDEFINED, r; char s[300] = "(function(){F(a,u1); G(1,b,null,u1); F(a,u2); G(2,b,null,u2);"; strcat(s, FR[1]); strcat(s, "})"); h_ok(m, SETUP); mjs_own(m, &f); f = h_ok(m, s);
  for (i = 0; i < 4; i++) { nreg = 0; CHECK(mjs_call(m, &r, f, MJS_UNDEFINED, 0) == MJS_OK && nreg == 4, "registered and released"); mjs_gc(m, 1); l[i] = vs_live(); } CHECK(l[1] == l[2] && l[2] == l[3], "released"); mjs_disown(m, &f); nreg = 0; h_ok(m, "F(a,u1); G(1,b,null,u1); F(a,u2); G(2,b,null,u2);"); h_ok(m, FR[fr]); mjs_destroy(m); CHECK(vs_live() == l0, "no leak"); }
