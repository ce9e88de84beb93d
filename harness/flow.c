#include "eng.h"
/* C11: generated programs against a reference interpreter of the same tree. Every condition is a call c() answered by a
 * fresh symbolic bit, every action a call L(n) that is recorded. */
enum { LOG, IF, IFELSE, FOR, WHILE, FORIN, FUN, BLK, BRK, CONT, RET, FORC, TERN, LOOPRET, AND, OR };
typedef struct N { int k, id, nb, ne; struct N *b[4], *e[4]; } N;
static N pool[64]; static int np; static unsigned char bits[48]; static int ncall; static int logv[256], nlog; static int want[256], nwant, wc; static int over;
static char buf[80000]; static size_t bl; static int padlen;
static N *nn(int k) { N *n = &pool[np++]; memset(n, 0, sizeof *n); n->k = k; n->id = np; return n; }
static void em(const char *s) { while (*s) buf[bl++] = *s++; buf[bl] = 0; }
static void emn(int v) { char t[12]; int i = 0; if (v == 0) t[i++] = '0'; while (v) { t[i++] = (char) ('0' + v % 10); v /= 10; } while (i) { char c[2] = {t[--i], 0}; em(c); } }
static void pad(int n) { int i; if (!n) return; em("'"); for (i = 0; i < n; i++) buf[bl++] = 'p'; buf[bl] = 0; em("';"); }
/* operands made longer by an ignored argument: hp[0] initialiser or first branch, hp[1] condition, hp[2] increment or second branch */
static int hp[3];
static void arg(int which, int first) { int i; if (!hp[which]) return; em(first ? "'" : ",'"); for (i = 0; i < hp[which]; i++) buf[bl++] = 'p'; buf[bl] = 0; em("'"); }
static void cc(void) { em("c("); arg(1, 1); em(")"); }
static void LL(int id, int which) { em("L("); emn(id); arg(which, 0); em(")"); }
static void body(N **b, int n);
static void gen(N *n) {
  switch (n->k) {
    case LOG: em("L("); emn(n->id); em(");"); break;
    case IF: em("if("); cc(); em("){"); body(n->b, n->nb); em("}"); break;
    case IFELSE: em("if("); cc(); em("){"); body(n->b, n->nb); em("}else{"); body(n->e, n->ne); em("}"); break;
    case FOR: em("for(let i"); emn(n->id); em("=0;i"); emn(n->id); em("<2;i"); emn(n->id); em("++){"); body(n->b, n->nb); em("}"); break;
    case FORC: em("for("); LL(n->id, 0); em(";"); cc(); em(";"); LL(n->id + 100, 2); em("){"); body(n->b, n->nb); em("}"); break;
    case WHILE: em("while("); cc(); em("){"); body(n->b, n->nb); em("}"); break;
    case FORIN: em("for(let k in {a:1,b:2}){"); body(n->b, n->nb); em("}"); break;
    case FUN: em("let f"); emn(n->id); em("=function(){"); body(n->b, n->nb); em("L("); emn(n->id + 100); em(");};f"); emn(n->id); em("();"); break;
    case BLK: em("{let q=1;"); body(n->b, n->nb); em("}"); break;
    case BRK: em("if(c()){break;}"); break; case CONT: em("if(c()){continue;}"); break; case RET: em("if(c()){return;}"); break;
    case TERN: cc(); em("?"); LL(n->id, 0); em(":"); LL(n->id + 100, 2); em(";"); break;
    case AND: cc(); em("&&"); LL(n->id, 2); em(";"); break; case OR: cc(); em("||"); LL(n->id, 2); em(";"); break;
    case LOOPRET: em("let g=function(){while(c()){for(let k in {a:1,b:2}){if(c()){return 5;}L("); emn(n->id); em(");}}};if(g()===5){L("); emn(n->id + 100); em(");}"); break;
  }
}
static void body(N **b, int n) { int i; pad(padlen); for (i = 0; i < n; i++) gen(b[i]); }
/* reference interpreter: 0 normal, 1 break, 2 continue, 3 return */
static int C(void) { if (wc >= 16) { over = 1; return 0; } return bits[wc++] & 1; }
static void W(int v) { if (nwant < 256) want[nwant++] = v; }
static int seq(N **b, int n);
static int run(N *n) {
  int r, i;
  switch (n->k) {
    case LOG: W(n->id); return 0;
    case IF: return C() ? seq(n->b, n->nb) : 0;
    case IFELSE: return C() ? seq(n->b, n->nb) : seq(n->e, n->ne);
    case FOR: case FORIN: for (i = 0; i < 2; i++) { r = seq(n->b, n->nb); if (r == 1) break; if (r == 3) return 3; } return 0;
    case FORC: W(n->id); while (C()) { r = seq(n->b, n->nb); if (r == 1) break; if (r == 3) return 3; W(n->id + 100); } return 0;
    case WHILE: while (C()) { r = seq(n->b, n->nb); if (r == 1) break; if (r == 3) return 3; } return 0;
    case FUN: r = seq(n->b, n->nb); if (r != 3) W(n->id + 100); return 0;
    case BLK: return seq(n->b, n->nb);
    case BRK: return C() ? 1 : 0; case CONT: return C() ? 2 : 0; case RET: return C() ? 3 : 0;
    case AND: if (C()) W(n->id); return 0; case OR: if (!C()) W(n->id); return 0;
    case TERN: W(C() ? n->id : n->id + 100); return 0;
    default: { int done = 0; while (!done && C()) { for (i = 0; i < 2 && !done; i++) { if (C()) { done = 1; break; } W(n->id); } } if (done) W(n->id + 100); return 0; }
  }
}
static int seq(N **b, int n) { int i, r; for (i = 0; i < n; i++) { r = run(b[i]); if (r) return r; } return 0; }
static void f_c(struct mjs *m) { int v = 0; if (ncall < 16) v = bits[ncall] & 1; ncall++; mjs_return(m, mjs_mk_boolean(m, v)); }
static void f_L(struct mjs *m) { mjs_val_t v = mjs_arg(m, 0); if (nlog < 256) logv[nlog++] = mjs_get_int(m, v); mjs_return(m, MJS_UNDEFINED); }
/* every condition evaluation is limited: after MAXC evaluations all conditions are false */
#ifndef MAXC
#define MAXC 5
#endif
static void exec_and_compare(N **top, int n) {
  struct mjs *m = h_new(); int i; mjs_val_t r; h_setf(m, "c", f_c); h_setf(m, "L", f_L); vs_sym(bits, MAXC, "bits"); for (i = 0; i < MAXC; i++) { ASSUME(bits[i] < 2); bits[i] = (unsigned char) vs_conc(bits[i]); }
  seq(top, n); if (over) { vs_reach("too long"); return; }
  mjs_err_t e = h_run(m, buf, &r); CHECK(e == MJS_OK, "the program runs without an error"); CHECK(ncall == wc, "conditions are evaluated as often as the structure says"); CHECK(nlog == nwant, "as many actions as the structure says"); if (nlog == nwant) for (i = 0; i < nwant; i++) CHECK(logv[i] == want[i], "the actions the structure says, in order");
  h_idle(m, "the engine is idle afterwards"); r = h_ok(m, "1+1"); CHECK(mjs_get_double(m, r) == 2, "engine works"); vs_reach("end");
}
static N *leaf(int loop, int fun) { int k = vs_choose(1 + 2 * loop + fun, "leaf"); if (k == 0) return nn(LOG); if (loop && k == 1) return nn(BRK); if (loop && k == 2) return nn(CONT); return nn(RET); }
static int isloop(int k) { return k == FOR || k == WHILE || k == FORIN || k == FORC; }
static N *inner(int loop, int fun) {
  static const int ks[] = {IF, IFELSE, FOR, WHILE, FORIN, FUN, BLK, FORC, LOG, TERN, LOOPRET}; int k = ks[vs_choose(11, "inner")]; N *n = nn(k);
  if (k == LOG || k == TERN || k == LOOPRET) return n; { int l = isloop(k) || (k != FUN && loop), f = k == FUN || fun; n->b[n->nb++] = leaf(l, f); n->b[n->nb++] = nn(LOG); if (k == IFELSE) { n->e[n->ne++] = leaf(l, f); n->e[n->ne++] = nn(LOG); } } return n;
}
static N *outer(void) { static const int ks[] = {IF, IFELSE, FOR, WHILE, FORIN, FUN, BLK, FORC}; int k = ks[vs_choose(8, "outer")], l = isloop(k), f = k == FUN; N *n = nn(k); n->b[n->nb++] = inner(l, f); n->b[n->nb++] = nn(LOG); if (k == IFELSE) { n->e[n->ne++] = nn(LOG); } return n; }
void H_flow2(void) { N *top[3]; top[0] = outer(); top[1] = nn(LOG); bl = 0; body(top, 2); exec_and_compare(top, 2); }
/* two inner statements in sequence inside an outer one */
void H_flow3(void) { N *top[3]; top[0] = outer(); { N *o = top[0]; int l = isloop(o->k), f = o->k == FUN; o->b[o->nb++] = inner(l, f); } top[1] = nn(LOG); bl = 0; body(top, 2); exec_and_compare(top, 2); }
/* three levels of loops and functions */
void H_flow_deep(void) {
  static const int ks[] = {IF, FOR, WHILE, FORIN, FUN, BLK, FORC}; int l = 0, f = 0, i, k; N *top[2], *cur = 0; for (i = 0; i < 3; i++) { k = ks[vs_choose(7, "nest")]; N *n = nn(k); l = isloop(k) || (k != FUN && l); f = k == FUN || f; if (!cur) top[0] = n; else cur->b[cur->nb++] = n; if (cur) cur->b[cur->nb++] = nn(LOG); cur = n; } cur->b[cur->nb++] = leaf(l, f); cur->b[cur->nb++] = nn(LOG); top[1] = nn(LOG); bl = 0; body(top, 2); exec_and_compare(top, 2); }
/* code sizes: every padding length in a range, so that each jump crosses the 1/2/3 byte offset encodings */
#ifndef PLO
#define PLO 40
#endif
#ifndef PN
#define PN 100
#endif
void H_flow_pad(void) {
  static const int sh[][2] = {{IF, BRK}, {IFELSE, BRK}, {FOR, CONT}, {WHILE, CONT}, {FORIN, CONT}, {FUN, RET}, {FORC, BRK}, {FOR, LOG}, {TERN, LOG}}; int s = vs_choose(9, "shape"), out = vs_choose(2, "outer"); padlen = PLO + vs_choose(PN, "pad"); N *o = nn(out ? WHILE : FOR), *n = nn(sh[s][0]), *top[2];
  n->b[n->nb++] = nn(sh[s][1]); n->b[n->nb++] = nn(LOG); if (n->k == IFELSE) { n->e[n->ne++] = nn(CONT); n->e[n->ne++] = nn(LOG); } o->b[o->nb++] = n; o->b[o->nb++] = nn(LOG); top[0] = o; top[1] = nn(LOG); bl = 0; body(top, 2); exec_and_compare(top, 2);
}
/* the same for the parts of a statement's head */
void H_flow_head(void) {
  static const int sh[] = {FORC, WHILE, IF, IFELSE, TERN, AND, OR}; static const int msk[] = {1, 2, 4, 3, 5, 6, 7}; int s = vs_choose(7, "shape"), out = vs_choose(2, "outer"), w = msk[vs_choose(7, "part")], p = PLO + vs_choose(PN, "pad"), i; N *o = nn(out ? WHILE : FOR), *n = nn(sh[s]), *top[2];
  if (sh[s] == WHILE || sh[s] == IF || sh[s] == IFELSE) ASSUME(w == 2); if (sh[s] == AND || sh[s] == OR) ASSUME(w == 2 || w == 4);
  if (s < 4) { n->b[n->nb++] = nn(s < 2 ? CONT : BRK); n->b[n->nb++] = nn(LOG); } if (n->k == IFELSE) n->e[n->ne++] = nn(LOG); for (i = 0; i < 3; i++) hp[i] = w >> i & 1 ? p : 0; padlen = 0; o->b[o->nb++] = n; o->b[o->nb++] = nn(LOG); top[0] = o; top[1] = nn(LOG); bl = 0; body(top, 2); exec_and_compare(top, 2);
}
/* ---- scopes, parameters, this ---- */
static void num(struct mjs *m, const char *src, double w, const char *what) { mjs_val_t r = h_ok(m, src); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), w), what); }
static void und(struct mjs *m, const char *src, const char *what) { mjs_val_t r = h_ok(m, src); CHECK(mjs_is_undefined(r), what); }
static void err(struct mjs *m, const char *src, const char *what) { mjs_val_t r; mjs_err_t e = h_run(m, src, &r); CHECK(e != MJS_OK, what); h_idle(m, "idle after an error"); }
void H_scope(void) {
  struct mjs *m = h_new(); double x, y; vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); h_setn(m, "x", x); h_setn(m, "y", y);
  num(m, "let a=x;{let a=y;a=y;}a", x, "an inner variable does not change the outer one"); num(m, "{a=y;}a", y, "assignment in a block reaches the outer variable"); err(m, "{let inner=1;}inner", "a block variable is gone after the block"); err(m, "if(true){let inner2=1;}inner2", "a variable of an if block is gone"); err(m, "for(let i=0;i<1;i++){let w=1;}w", "a loop body variable is gone"); err(m, "for(let ii=0;ii<1;ii++){}ii", "a loop variable is gone"); err(m, "let g=function(){let loc=1;};g();loc", "a local variable is gone after the call"); err(m, "undefinedname", "an unknown name is an error"); err(m, "let g2=function(p){};g2(1);p", "a parameter is gone after the call"); err(m, "for(let kk in {a:1}){}kk", "a for-in variable is gone");
  num(m, "let f=function(p){p=y;return p;};let b=x;f(b);b", x, "parameters are copies"); num(m, "let h=function(){a=x;return 1;};h();a", x, "functions assign globals"); num(m, "let z=1;let k=function(z){return z;};k(x)", x, "a parameter shadows a global"); num(m, "z", 1, "the global is unchanged"); num(m, "let s=0;for(let i=0;i<3;i++){let t=i;s+=t;}s", 3, "a loop body declares afresh each time");
}
void H_params(void) {
  struct mjs *m = h_new(); double x, y, z; vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); vs_sym(&z, 8, "z"); h_setn(m, "x", x); h_setn(m, "y", y); h_setn(m, "z", z); h_ok(m, "let f=function(a,b,c){return {a:a,b:b,c:c};};let r=0;");
  num(m, "r=f(x,y,z);r.a", x, "first parameter"); num(m, "r.b", y, "second parameter"); num(m, "r.c", z, "third parameter"); num(m, "r=f(x);r.a", x, "first parameter"); und(m, "r.b", "a missing argument is undefined"); und(m, "r.c", "a missing argument is undefined"); und(m, "r=f();r.a", "a missing argument is undefined"); num(m, "r=f(x,y,z,1,2);r.c", z, "extra arguments are ignored"); num(m, "f(f(z).a,f(x,y).b,f(f(f(x).a).a).a).c", x, "nested calls as arguments"); num(m, "f(f(z).a,f(x,y).b,3).b", y, "nested calls as arguments"); num(m, "f(1,x+0?f(y).a:f(y).a).b", y, "conditional argument");
  und(m, "let e=function(){};e()", "a function without return yields undefined"); und(m, "let e2=function(a){return;};e2(x)", "an empty return yields undefined"); num(m, "let fac=function(n){return n<2?1:n*fac(n-1);};fac(5)", 120, "recursion"); num(m, "let o={v:x,m:function(){return this.v;},n:{v:y,m:function(){return this.v;}}};o.m()", x, "this is the object of the call"); num(m, "o.n.m()", y, "this is the innermost object"); num(m, "o['m']()", x, "computed method"); num(m, "let g=function(p){return p.m();};g(o.n)", y, "this through a parameter"); num(m, "o.k=function(a){return this.v;};o.k(o.n.m())", x, "this survives a method call in the arguments"); und(m, "let plain=function(){return this;};plain()", "this is undefined in a plain call"); num(m, "let q={v:z};o.m.apply(q,[])", z, "apply sets this"); num(m, "f.apply(null,[x,y]).b", y, "apply passes arguments"); num(m, "(function(a){return a;})(x)", x, "immediate call"); num(m, "o.w=function(){let t=this;return plain()===undefined?t.v:0;};o.w()", x, "this is restored after an inner call");
  h_idle(m, "idle");
}
/* loops with symbolic bounds */
void H_count(void) {
  struct mjs *m = h_new(); unsigned char n, b, s; vs_sym(&n, 1, "n"); vs_sym(&b, 1, "b"); vs_sym(&s, 1, "s"); ASSUME(n <= 6 && b <= 7 && s <= 7); h_setn(m, "n", n); h_setn(m, "b", b); h_setn(m, "s", s); int i, sum = 0, w; n = vs_conc(n); b = vs_conc(b); s = vs_conc(s); for (i = 0; i < n; i++) { if (i == b) break; if (i == s) continue; sum += i + 1; }
  num(m, "let t=0;for(let i=0;i<n;i++){if(i===b){break;}if(i===s){continue;}t+=i+1;}t", sum, "for with break and continue"); num(m, "t=0;let i=0;while(i<n){if(i===b){break;}i++;if(i-1===s){continue;}t+=i;}t", sum, "while with break and continue"); num(m, "t=0;for(let i=0;i<n;i++)if(i!==s)t+=i+1;t", n * (n + 1) / 2 - (s < n ? s + 1 : 0), "bodies without braces"); w = 0; for (i = 0; i < n; i++) w += i < b ? i : b; num(m, "t=0;for(let i=0;i<n;i++){for(let j=0;j<n;j++){if(j>=i||j>=b){break;}t++;}}t", w, "nested loops with break"); num(m, "let f=function(n,b){for(let i=0;i<n;i++){if(i===b){return i;}}return 0-1;};f(n,b)", b < n ? b : -1, "return inside a loop"); num(m, "t=0;for(let i=n;i>0;i--){t+=i;}t", n * (n + 1) / 2, "counting down"); h_idle(m, "idle"); vs_reach("end");
}
/* many blocks, many functions, long argument lists, deep nesting */
void H_big(void) {
  struct mjs *m = h_new(); int k = vs_choose(6, "k"), i; double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x); bl = 0;
  switch (k) {
    case 0: em("let s=0;"); for (i = 0; i < 600; i++) em("{s++;}"); em("s"); num(m, buf, 600, "many blocks"); break;
    case 1: em("let s=0;"); for (i = 0; i < 300; i++) { em("if(s==="); emn(i); em("){s=s+1;}else{s=0;}"); } em("s"); num(m, buf, 300, "many conditionals"); break;
    case 2: em("let f=function(a,b){"); pad(40000); em("return b;};f(1,x)"); num(m, buf, x, "a large function"); break;
    case 3: em("let s=0;"); for (i = 0; i < 40; i++) em("if(1){"); em("s=x;"); for (i = 0; i < 40; i++) em("}"); em("s"); num(m, buf, x, "deep nesting"); break;
    case 4: em("let s=0;for(let i=0;i<3;i++){"); pad(17000); em("if(i===1){continue;}"); pad(17000); em("s+=i;}s"); num(m, buf, 2, "a large loop body"); break;
    default: em("let f=function(a"); for (i = 0; i < 30; i++) { em(",p"); emn(i); } em("){return p29;};f(0"); for (i = 0; i < 29; i++) em(",1"); em(",x)"); num(m, buf, x, "many parameters"); }
  h_idle(m, "idle");
}
