#include "eng.h"
/* C12: whatever fails, wherever, the engine is afterwards as if it had not been asked */
static int cnt, failat, kind; static double tv = 1;
static int sym_below(int n, const char *nm) { uint8_t b; vs_sym(&b, 1, nm); vs_assume(b < n); return b; }
static void sym_tv(void) { int8_t v; vs_sym(&v, 1, "tv"); vs_assume(v <= 5); tv = v; }
static void f_T(struct mjs *m) {
  mjs_val_t ret = mjs_mk_number(m, tv), r = MJS_UNDEFINED; int me = cnt++;
  if (me == failat) switch (kind) {
    case 0: mjs_prepend_errorf(m, MJS_TYPE_ERROR, "injected"); break;
    case 1: mjs_set_errorf(m, MJS_INTERNAL_ERROR, "injected %d", me); break;
    case 2: mjs_exec(m, "let zz=0;{let yy={a:die('x')};}", &r); break;
    case 3: mjs_call(m, &r, mjs_get(m, mjs_get_global(m), "bad", ~0), mjs_get_global(m), 2, ret, ret); break;
    case 4: mjs_exec(m, "let a=(1;", &r); break;
    default: mjs_call(m, &r, ret, ret, 0); break;
  }
  mjs_return(m, ret);
}
static const char *const DEFS = "let s=0;let bad=function(a,b){for(let i=0;i<3;i++){let k=[1,{v:null.x}];}};"
  "let f=function(a,b){T();let l=a;for(let i=0;i<2;i++){T();{let z=i;s+=T();}}return T()+a;};"
  "let o={v:1,m:function(x){while(T()>5){}for(let k in {p:1,q:2}){this.v=this.v+T();}return f(T(),T())+x;}};";
static const char *const MAIN[] = { "s=0;o.v=1;let r=o.m(f(T(),T()));[T(),{a:T()}];if(T()){s+=r+o.v;}s", "s=0;o.v=1;for(let i=0;i<2;i++){s+=f(i,1)?T():2;}s+o.m(T()&&T())", "s=0;{let t=[T(),f(T()),T()];{let u={a:t,b:o.m(T())};s+=u.b;}}s" };
static void define(struct mjs *m) { h_setf(m, "T", f_T); h_ok(m, DEFS); }
static double expected(const char *src) { struct mjs *g = h_new(); double v; int c = cnt, fa = failat; failat = -1; define(g); v = mjs_get_double(g, h_ok(g, src)); mjs_destroy(g); cnt = c; failat = fa; return v; }
/* behaves like new */
static void like_new(struct mjs *m, const char *src, double want) {
  if (vs_choose(2, "first")) { mjs_val_t q = MJS_UNDEFINED; int fa = failat; failat = -1; CHECK(mjs_call(m, &q, h_get(m, "T"), MJS_UNDEFINED, 0) == MJS_OK && mjs_get_double(m, q) == tv, "a call of a host function right after a failure works"); failat = fa; }
  mjs_val_t r; h_idle(m, "the engine is idle after a failure"); failat = -1; r = h_ok(m, "this"); CHECK(mjs_is_undefined(r), "`this` is back to that of the caller"); r = h_ok(m, src); CHECK(mjs_is_number(r) && mjs_get_double(m, r) == want, "a later script gives the same result as on a new engine");
  CHECK(h_run(m, "break;", &r) != MJS_OK, "no loop is left open"); CHECK(h_run(m, "return 1;", &r) != MJS_OK, "no call is left open"); CHECK(h_run(m, "l", &r) != MJS_OK && h_run(m, "z", &r) != MJS_OK && h_run(m, "x", &r) != MJS_OK, "no local variable is left visible");
  { mjs_val_t f = h_get(m, "f"), q = MJS_UNDEFINED; CHECK(mjs_call(m, &q, f, MJS_UNDEFINED, 1, mjs_mk_number(m, 4)) == MJS_OK && mjs_get_double(m, q) == tv + 4, "a later call works"); CHECK(mjs_call(m, &q, h_get(m, "T"), MJS_UNDEFINED, 0) == MJS_OK && mjs_get_double(m, q) == tv, "a later call of a host function works"); } h_idle(m, "idle at the end");
}
#ifndef NF
#define NF 24
#endif
void H_err_script(void) { struct mjs *m; const char *src = MAIN[vs_choose(3, "prog")]; mjs_val_t r; mjs_err_t e; size_t l0; kind = vs_choose(6, "kind"); failat = -1; sym_tv(); double w = expected(src); l0 = vs_live(); m = h_new(); define(m); cnt = 0; failat = sym_below(NF, "failat"); e = h_run(m, src, &r);
  if (cnt <= failat) { CHECK(e == MJS_OK && mjs_get_double(m, r) == w, "result without a failure"); vs_reach("no failure"); } else { CHECK(e != MJS_OK, "the failure is reported"); CHECK(mjs_is_undefined(r), "a failed script yields undefined"); CHECK(strlen(mjs_strerror(m, e)) > 0, "message"); vs_reach("failure"); }
  like_new(m, src, w); mjs_destroy(m); CHECK(vs_live() == l0, "nothing leaks"); }
/* the same from a host call */
void H_err_call(void) { struct mjs *m = h_new(); mjs_val_t r = MJS_UNDEFINED, o; mjs_err_t e; kind = vs_choose(6, "kind"); double x; vs_sym(&x, 8, "x"); define(m); cnt = 0; sym_tv(); failat = sym_below(16, "failat"); o = h_get(m, "o"); e = mjs_call(m, &r, mjs_get(m, o, "m", ~0), o, 1, mjs_mk_number(m, x));
  if (cnt <= failat) { CHECK(e == MJS_OK && h_same(mjs_get_double(m, r), (tv + tv) + x), "host call result"); vs_reach("no failure"); } else { CHECK(e != MJS_OK, "the failure is reported to the host"); vs_reach("failure"); } like_new(m, MAIN[0], expected(MAIN[0])); }
/* a host function that calls back, sees the failure, clears it and goes on: the outer script must not notice */
static double xs[4]; static int calls, how, deep;
static void f_H(struct mjs *m) { mjs_val_t r = MJS_UNDEFINED, o = h_get(m, "o"), a0 = mjs_arg(m, 0), th = mjs_get_this(m); mjs_err_t e; int n = mjs_nargs(m); calls++;
  if (how == 0) e = mjs_call(m, &r, mjs_get(m, o, "m", ~0), o, 1, mjs_mk_number(m, 3)); else if (how == 1) e = mjs_exec(m, "{let t=[1,2,f(1,2)];o.m(3)}", &r); else { mjs_val_t av[3]; av[0] = av[1] = av[2] = a0; e = mjs_apply(m, &r, h_get(m, "bad2"), o, 3, av); }
  if (e != MJS_OK) { vs_reach("inner failure"); mjs_set_errorf(m, MJS_OK, NULL); }
  CHECK(mjs_nargs(m) == n && mjs_arg(m, 0) == a0 && mjs_get_this(m) == th, "arguments and `this` of the host function survive a nested call"); mjs_return(m, a0); }
void H_err_nested(void) {
  static const char *const src[] = {"let r=[7,H(x,2),8];r[0]===7&&r[1]===x&&r[2]===8&&r.length===3", "let g=function(a,b,c){let l=a;let h=H(b,c);return {a:a,h:h,l:l,c:c};};let w=g(1,x,3);w.a===1&&w.h===x&&w.l===1&&w.c===3", "let p={v:5,H:H,k:function(a){let q=this.H(a);return this.v===5&&q===x;}};p.k(x)", "let n=0;for(let i=0;i<3;i++){if(i===1){H(x);continue;}n+=i;if(H(i)!==i){n=100;}}n===2", "let t=0;for(let k in {a:1,b:2}){t+=H(1);{let z=H(2);t+=z;}}t===6", "let q=1+H(2)*H(3)-H(4);q===3&&H(x)===x", "let fn=function(n){if(n<1){return H(x);}return fn(n-1);};fn(3)===x"};
  struct mjs *m = h_new(); mjs_val_t r; kind = vs_choose(6, "kind"); how = vs_choose(3, "how"); define(m); h_setf(m, "H", f_H); int8_t x; vs_sym(&x, 1, "x"); h_setn(m, "x", x); cnt = 0; failat = sym_below(12, "failat"); h_ok(m, "let bad2=function(a,b,c){let q={a:b};while(T()){for(let k in q){T();f(a,b);if(T()){return b;}}}};"); cnt = 0;
  r = h_ok(m, src[vs_choose(7, "src")]); CHECK(mjs_is_boolean(r) && mjs_get_bool(m, r), "a nested call, failed or not, leaves the outer script unaffected"); h_idle(m, "idle"); CHECK(calls > 0, "called"); }
/* argument passing of host calls */
static int got; static double gv[6]; static mjs_val_t gthis;
static void f_G(struct mjs *m) { int i; got = mjs_nargs(m); for (i = 0; i < got && i < 6; i++) gv[i] = mjs_get_double(m, mjs_arg(m, i)); CHECK(mjs_is_undefined(mjs_arg(m, got)) && mjs_is_undefined(mjs_arg(m, got + 5)), "no more arguments than given"); gthis = mjs_get_this(m); mjs_return(m, mjs_arg(m, 1)); }
void H_call_args(void) {
  struct mjs *m = h_new(); double a, b, c; int n = vs_choose(4, "n"), k = vs_choose(3, "k"); mjs_val_t r = MJS_UNDEFINED, v[3], f, th; vs_sym(&a, 8, "a"); vs_sym(&b, 8, "b"); vs_sym(&c, 8, "c"); h_ok(m, "let th={q:1};let F=function(x,y,z){return {x:x,y:y,z:z,t:this};};"); h_setf(m, "G", f_G); th = h_get(m, "th"); v[0] = mjs_mk_number(m, a); v[1] = mjs_mk_number(m, b); v[2] = mjs_mk_number(m, c);
  f = k == 0 ? h_get(m, "G") : h_get(m, "F"); mjs_err_t e = k == 2 ? mjs_apply(m, &r, f, th, n, v) : n == 0 ? mjs_call(m, &r, f, th, 0) : n == 1 ? mjs_call(m, &r, f, th, 1, v[0]) : n == 2 ? mjs_call(m, &r, f, th, 2, v[0], v[1]) : mjs_call(m, &r, f, th, 3, v[0], v[1], v[2]); CHECK(e == MJS_OK, "call succeeds");
  if (k == 0) { CHECK(got == n && gthis == th, "a host function gets the arguments and this"); if (n > 0) CHECK(h_same(gv[0], a), "first"); if (n > 1) CHECK(h_same(gv[1], b) && h_same(mjs_get_double(m, r), b), "second and result"); if (n > 2) CHECK(h_same(gv[2], c), "third"); if (n < 2) CHECK(mjs_is_undefined(r), "result"); }
  else { static const char *const nm[] = {"x", "y", "z"}; double w[3]; int i; w[0] = a; w[1] = b; w[2] = c; for (i = 0; i < 3; i++) { mjs_val_t p = mjs_get(m, r, nm[i], ~0); if (i < n) CHECK(mjs_is_number(p) && h_same(mjs_get_double(m, p), w[i]), "a script function gets the arguments in order"); else CHECK(mjs_is_undefined(p), "a missing argument is undefined"); } CHECK(mjs_get(m, r, "t", ~0) == th, "this is passed"); }
  h_idle(m, "idle after a call"); r = h_ok(m, "this"); CHECK(mjs_is_undefined(r), "this is restored"); CHECK(mjs_call(m, NULL, f, th, 0) == MJS_OK, "result may be ignored"); h_idle(m, "idle"); e = mjs_call(m, &r, th, th, 1, v[0]); CHECK(e != MJS_OK, "calling a non-function is an error"); h_idle(m, "idle"); r = h_ok(m, "G.apply(th,[1,2,3])"); CHECK(got == 3 && gv[2] == 3 && gthis == th && mjs_get_double(m, r) == 2, "apply from a script"); vs_reach("end");
}
/* variables keep what was assigned before the failure */
void H_err_keep(void) { struct mjs *m = h_new(); mjs_val_t r; double x; int i, k = sym_below(5, "k"); vs_sym(&x, 8, "x"); h_setn(m, "x", x); define(m); cnt = 0; kind = vs_choose(6, "kind"); failat = k; h_ok(m, "let a=[];let g=0;"); mjs_err_t e = h_run(m, "for(let i=0;i<5;i++){T();a.push(i);g=x;}", &r); CHECK(e != MJS_OK, "fails"); r = h_ok(m, "a.length"); CHECK(mjs_get_double(m, r) == k, "effects before the failure are kept, later ones do not happen"); r = h_ok(m, "g"); CHECK(h_same(mjs_get_double(m, r), k ? x : 0), "assigned variable"); for (i = 0; i < k; i++) CHECK(mjs_get_double(m, mjs_array_get(m, h_get(m, "a"), i)) == i, "elements"); }
