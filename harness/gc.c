#include "eng.h"
/* C05: a collection at any moment does not change what a script computes. The hook MJS_GC_POINT runs before every instruction. */
enum { NONE, ONE, FROM, EVERY, TWO };
static struct { int mode, full, n, hits, from; uint32_t k, k2; } S;
enum { ALTERNATE = 2 };
#ifndef NEAR
#define NEAR 3
#endif
static int here(void) { return vs_choose(2, "collect"); }
void vs_gc_point(struct mjs *m) {
  int s = S.n++, hit = 0;
  switch (S.mode) { /* a symbolic decision at every instruction until the schedule is used up */
    case ONE: if (!S.from) hit = S.from = here(); break;
    case TWO: if (!S.from) { hit = here(); if (hit) S.from = s + 1; } else if (S.hits == 1 && s < S.from + NEAR) hit = here(); break;
    case FROM: if (!S.from) S.from = here(); hit = S.from; break;
    case EVERY: hit = (uint32_t) s % S.k2 == S.k; break; }
  if (hit) mjs_gc(m, S.full == ALTERNATE ? S.hits & 1 : S.full), S.hits++;
}
#define LN 40
#define LS 120
static struct lg { int n, err; struct { int t; double d; int l; char s[LS]; } e[LN]; } LG[2], *lg;
static void rec(struct mjs *m, mjs_val_t v) {
  int i = lg->n++; CHECK(i < LN, "log size"); lg->e[i].t = mjs_is_string(v) ? 1 : mjs_is_number(v) ? 2 : mjs_is_boolean(v) ? 3 + !!mjs_get_bool(m, v) : mjs_is_undefined(v) ? 5 : mjs_is_null(v) ? 6 : mjs_is_array(v) ? 7 : mjs_is_object(v) ? 8 : mjs_is_function(v) ? 9 : 10; lg->e[i].l = 0; lg->e[i].d = 0;
  if (mjs_is_string(v)) { size_t l; const char *p = mjs_get_string(m, &v, &l); CHECK(l < LS, "log string"); lg->e[i].l = l; memcpy(lg->e[i].s, p, l); CHECK(p[l] == 0 || !mjs_is_string(v), "terminated"); }
  if (mjs_is_number(v)) lg->e[i].d = mjs_get_double(m, v);
  if (mjs_is_array(v)) lg->e[i].l = mjs_array_length(m, v);
}
static void f_out(struct mjs *m) { int i, n = mjs_nargs(m); for (i = 0; i < n; i++) rec(m, mjs_arg(m, i)); mjs_return(m, mjs_nargs(m) ? mjs_arg(m, 0) : MJS_UNDEFINED); }
/* host functions that own the values they hold over a call */
static void f_twice(struct mjs *m) { mjs_val_t f = mjs_arg(m, 0), x = mjs_arg(m, 1), a = MJS_UNDEFINED, b = MJS_UNDEFINED, o = MJS_UNDEFINED; mjs_err_t e; mjs_own(m, &f); mjs_own(m, &x); mjs_own(m, &a); mjs_own(m, &b); mjs_own(m, &o);
  e = mjs_call(m, &a, f, MJS_UNDEFINED, 1, x); if (!e) e = mjs_call(m, &b, f, a, 2, x, a); o = mjs_mk_object(m); mjs_set(m, o, "a", ~0, a); mjs_set(m, o, "b", ~0, b); mjs_set(m, o, "x", ~0, x);
  mjs_disown(m, &o); mjs_disown(m, &b); mjs_disown(m, &a); mjs_disown(m, &x); mjs_disown(m, &f); mjs_return(m, e ? MJS_UNDEFINED : o); }
static void f_sub(struct mjs *m) { mjs_val_t r = MJS_UNDEFINED, c = mjs_arg(m, 0); char src[100]; size_t l; const char *p = mjs_get_string(m, &c, &l); memcpy(src, p, l); src[l] = 0; mjs_own(m, &r); mjs_exec(m, src, &r); mjs_disown(m, &r); mjs_return(m, r); }
static int c_len(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int c_sum(const char *s, struct mg_str *t, int k) { return c_len(s) * 100 + (int) t->len * 10 + k; }
static intptr_t c_now(void *f, void *u, int a) { return ((intptr_t (*)(intptr_t, intptr_t, intptr_t, intptr_t, intptr_t, intptr_t)) f)((intptr_t) u, a, 0, 0, 0, 0); }
static struct { void *f, *u; } R[4]; static int nr;
static void c_reg(void *f, void *u) { R[nr].f = f; R[nr++].u = u; }
static int c_call(int k, int a) { return (int) c_now(R[k].f, R[k].u, a); }
static void *rs(void *h, const char *n) { (void) h; return !strcmp(n, "len") ? (void *) c_len : !strcmp(n, "sum") ? (void *) c_sum : !strcmp(n, "now") ? (void *) c_now : !strcmp(n, "reg") ? (void *) c_reg : !strcmp(n, "call") ? (void *) c_call : NULL; }
/* A, B: strings of 9 and 6 arbitrary bytes; C: 3 arbitrary bytes; N: any double */
static const char *const P[] = {
  /* 0 temporaries as arguments */ "let f=function(a,b,c){return a+b+c;}; out(f(A+'1',B+A,'zz'+B)); out(f(f(A,B,A),A+B,f(B,B,'x'+A)));",
  /* 1 literals */ "let o={a:A+B,b:[B+'q',{c:A+'r',d:[N,A+A]}],e:function(){return this.a+'!';}}; out(o.a,o.b[0],o.b[1].c,o.b[1].d[1],o.e(),o.b[1].d[0],o.b);",
  /* 2 methods of temporaries */ "let mk=function(v){return {v:v,g:function(x){return {w:this.v+x,h:function(){return this.w+'.';}};}};}; out(mk(A+B).g(C+A).h(),mk(mk(B+'b').g('c'+B).w).g(A).w);",
  /* 3 for-in */ "let o={}; o[A+'a']=B+'v'; o['kk'+B]=2; let r=''; for(let k in o){ r=r+k+'='; for(let j in {p:1,longname:2}){ r=r+j; let t='t'+j+A; } out(r,o[k]); }",
  /* 4 recursion */ "let f=function(n,s){ let t=s+'.'; if(n===0){return t;} let u=f(n-1,t+C); return u+t; }; out(f(2,A));",
  /* 5 arrays */ "let a=[A+'0',B+'11111',A+'2',[B+'3']]; let r=a.splice(1,2,B+'new',{z:A+'zz'}); a.push(A+'end'); out(r[0],r[1],a[0],a[1],a[2].z,a[3][0],a[4],a.length,r.length);",
  /* 6 JSON */ "let p=JSON.parse('{\"a\":[1,\"longstring\",{\"b\":\"'+'other one'+'\"}],\"longkey\":\"x'+'yz12345\"}'); out(JSON.stringify(p),p.a[1],p.longkey,JSON.parse(JSON.stringify({q:['aaaaaaaa'],w:p})).w.a[2].b);",
  /* 7 apply */ "let f=function(a,b){return this.t+a+b;}; out(f.apply({t:B+'th'},[A+'1',B+'2'])); out(f.apply({t:A+A},[f.apply({t:'q'+A},[B,B]),A]));",
  /* 8 calls from the host */ "let r=twice(function(a,b){ let t=a+'!'; return t+C+(b?b:''); },B+'arg'); out(r.a,r.b,r.x); out(twice(function(a){return {r:a+A};},C+'argument').b.r);",
  /* 9 conditionals */ "let t=(N>0?A+'pos':B+'neg')+(A||'x')+((B+'l') && (A+B)); out(t, N>0, !t, t===t+'', (A+B===A+B)?A+C:B+C);",
  /* 10 computed names */ "let o={}; o['k'+A]=B+'v'; o['k'+A]=o['k'+A]+A; o.x={y:{}}; o.x.y['z'+B]=[A+B]; out(o['k'+A],o.x.y['z'+B][0],o.x.y['z'+B]);",
  /* 11 FFI */ "let g=ffi('int sum(char*,struct mg_str*,int)'); out(ffi('int len(char*)')(A+'abc'),g(A+B,B+'longer',7),ffi('int sum(char *,struct mg_str *,int)')(B+B,C+A+C,ffi('int len(char*)')(C+'x')));",
  /* 12 FFI callbacks */ "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let r=''; let f=function(u,i){ let t='t'+u.s; r=r+t+'/'; if(i===0){return 5;} return n(f,{s:u.s+C},i-1)+1; }; out(n(f,{s:'s'+B},2),r);",
  /* 13 prototypes */ "let p={g:function(){return this.n+'/'+A;}}; let o=Object.create(p); o.n=B+'own'; out(o.g(),Object.create({n:A+'pp',g:p.g}).g(),Object.create(o).n);",
  /* 14 string builtins */ "out((A+B).slice(2,9),(A+B).length,(B+A)[3],chr((A+'x').at(1))===0,(A+B).slice(1).slice(1,8)+'!');",
  /* 15 loops */ "let r=''; for(let i=0;i<4;i++){ let t=C+'iiiiii'; if(i===2){continue;} while(true){ let z=t+r; r=z; if(i===1){ let q=B+t; r=q; } break; } } out(r);",
  /* 16 compound assignment */ "let s=A; s+=B; s+=s; let o={q:B+B}; o.q+=A+C; let t=(s+=C)+o.q; out(s,o.q,t);",
  /* 17 errors */ "let f=function(s){ let t=s+'x'; die('msg '+t+B); }; out(A+'before'); f(C+'1234');",
  /* 18 type error */ "let o={a:A+B}; out(o.a+'1',{b:1}.b); [A+'e',B+'f'][1]({x:A+A});",
  /* 19 explicit collection in arguments */ "let f=function(a,b,c){return a+c;}; out(f(A+'1',gc(true),B+'2'),f({v:A+'3'}.v,gc(false),[B+'4'][0]));",
  /* 20 nested scripts */ "let r=A+'keep'; out(sub('let q=A+\"in\"; q+B')+r, sub('\"lit\"+C'), f2(function(x){return sub('A+B+C')+x;}));",
  /* 21 string this, method of a string temporary */ "let f=function(x){return this+x+this;}; out(f.apply(A+B,[C+'arg']),(A+'one').slice(0,(B+'two').length));",
  /* 22 functions in functions */ "let mk=function(a){ return [function(b){ return {s:b+C,t:[b,a0]}; }, a+B]; }; let a0=A+'z'; let m=mk(A+'y'); let q=m[0](m[1]+'w'); out(q.s,q.t[0],q.t[1],m[1]);",
  /* 23 identity */ "let a={n:[]}; let b=a.n; a.n.push(a); a.self=a; let c=[a,{o:b}]; out(c[0]===a,c[1].o===a.n,b[0].self===c[0],c[1].o[0].n===b,{}==={},a===b[0]); let s=A+B; let t=s; s=B; out(t,s);",
  /* 24 `this` of a temporary across nested calls */ "let h=function(x){ let q={s:x+'h'}; return q.s; }; let mk=function(v){return {v:v,m:function(x){ let a=h(x+C); let b=h(a); return this.v+b+this.v; }};}; out(mk(A+'1').m(B)); out(mk(A+'2').m(mk(B+'3').m(h(C+'long'))));",
  /* 25 callbacks kept by C code only */ "let r=ffi('void reg(int (*)(userdata,int),userdata)'); let g=ffi('int call(int,int)'); let w=''; r(function(u,i){ w=w+u.s+'/'; return (u.s+C).length+i; },{s:B+A}); r(function(u,i){ w=w+u; return g(0,i+1)+1; },C+'userdata'); let z=A+'zz'; out(g(0,5),z); out(g(1,N>1?7:8),w,g(0,1));",
};
#define NP ((int) (sizeof(P) / sizeof(*P)))
#ifndef PLO
#define PLO 0
#define PHI NP
#endif
static char A[9], B[6], C[3]; static double N; static char msg[2][200];
static void input(void) { int i; vs_sym(A, 9, "A"); vs_sym(B, 6, "B"); vs_sym(C, 3, "C"); vs_sym(&N, 8, "N"); for (i = 0; i < 9; i++) vs_assume(A[i] != 0); for (i = 0; i < 6; i++) vs_assume(B[i] != 0); for (i = 0; i < 3; i++) vs_assume(C[i] != 0); }
static void f_f2(struct mjs *m) { mjs_val_t f = mjs_arg(m, 0), r = MJS_UNDEFINED, x; mjs_own(m, &f); mjs_own(m, &r); x = mjs_mk_string(m, "hostmade", ~0, 1); mjs_call(m, &r, f, MJS_UNDEFINED, 1, x); mjs_disown(m, &r); mjs_disown(m, &f); mjs_return(m, r); }
static void env(struct mjs *m) { mjs_set_ffi_resolver(m, rs); h_sets(m, "A", A, 9); h_sets(m, "B", B, 6); h_sets(m, "C", C, 3); h_setn(m, "N", N); h_setf(m, "out", f_out); h_setf(m, "twice", f_twice); h_setf(m, "sub", f_sub); h_setf(m, "f2", f_f2); }
static void one(int p, int which, struct mjs *m) { mjs_val_t r = MJS_UNDEFINED; mjs_err_t e; lg = &LG[which]; lg->n = 0; nr = 0; env(m); S.n = 0; S.hits = 0; S.from = 0; mjs_own(m, &r); e = mjs_exec(m, P[p], &r); rec(m, r); lg->err = e; { const char *q = mjs_strerror(m, e); strncpy(msg[which], q ? q : "", 199); } mjs_disown(m, &r); if (!e) h_idle(m, "idle after the script"); else CHECK(p == 17 || p == 18, "no error"); 
  /* and the engine goes on working */ S.mode = NONE; CHECK(mjs_exec(m, "out(A+B+C); ({z:[C+'last']}).z[0]", &r) == MJS_OK, "later script"); rec(m, r); }
static void compare(void) { int i; CHECK(LG[0].n == LG[1].n && LG[0].err == LG[1].err, "same number of results, same error code"); for (i = 0; i < LG[0].n; i++) { CHECK(LG[0].e[i].t == LG[1].e[i].t && LG[0].e[i].l == LG[1].e[i].l, "same type and length"); if (LG[0].e[i].t == 2) CHECK(h_same(LG[0].e[i].d, LG[1].e[i].d), "same number"); if (LG[0].e[i].t == 1) CHECK(h_bytes_eq(LG[0].e[i].s, LG[1].e[i].s, LG[0].e[i].l), "same string"); } CHECK(h_bytes_eq(msg[0], msg[1], 200), "same message"); }
static int base(int p) { struct mjs *m = h_new(); size_t st; S.mode = NONE; m->inhibit_gc = 1; one(p, 0, m); st = S.n; mjs_destroy(m); return st; }
static void sched(int p, int mode) { struct mjs *m = h_new(); S.mode = mode; one(p, 1, m); compare(); mjs_gc(m, 1); CHECK(h_streq(m, h_get(m, "A"), A, 9), "global kept"); mjs_destroy(m); }
static int prog(void) { int p = PLO + vs_choose(PHI - PLO, "prog"); return p; }
void H_gc_one(void) { int p; input(); p = prog(); base(p); S.full = vs_choose(2, "full"); sched(p, ONE); CHECK(S.hits <= 1, "schedule"); vs_reach("end"); }
void H_gc_from(void) { int p; input(); p = prog(); base(p); S.full = ALTERNATE; sched(p, FROM); vs_reach("end"); }
void H_gc_every(void) { int p; input(); p = prog(); base(p); S.full = vs_choose(2, "full"); S.k2 = 1 + vs_choose(5, "period"); S.k = vs_choose(S.k2, "phase"); sched(p, EVERY); CHECK(S.hits > 5, "schedule"); vs_reach("end"); }
/* the engine's own thresholds, with small arenas (build flags) and strings of different lengths before the script */
void H_gc_auto(void) { int p, i, w; struct mjs *m; char t[101]; input(); p = prog(); base(p); w = vs_choose(12, "fill"); m = h_new(); memset(t, 'f', 101); for (i = 0; i < w; i++) { mjs_mk_string(m, t, 6 + i, 1); if (i & 1) mjs_mk_object(m); } S.mode = NONE; one(p, 1, m); compare(); mjs_destroy(m); vs_reach("end"); }
/* one script after another in the same engine, collecting between and inside */
void H_gc_seq(void) { int p, q, n; struct mjs *m; input(); p = prog(); q = prog(); base(q); S.full = ALTERNATE; m = h_new(); S.mode = EVERY; S.k2 = 3; S.k = vs_choose(3, "phase"); LG[1].n = 0; { int d = S.k; struct lg keep = LG[0]; char km[200]; memcpy(km, msg[0], 200); S.mode = EVERY; S.k = d; one(p, 1, m); LG[0] = keep; memcpy(msg[0], km, 200); } S.mode = EVERY; one(q, 1, m); compare(); mjs_destroy(m); (void) n; vs_reach("end"); }
/* C06 */
static void sched2(int p) { struct mjs *m = h_new(); S.mode = TWO; one(p, 1, m); compare(); mjs_destroy(m); }
void H_gc_near(void) { int p; input(); p = prog(); base(p); S.full = 0; sched2(p); vs_reach("end"); }
/* histories of own / disown / collect / assign over three variables */
#ifndef NH
#define NH 5
#endif
static mjs_val_t V[3]; static char VS[3][8]; static int have[3]; /* 0 nothing, 1 string, 2 object holding the string */
static void fill(struct mjs *m, int i, int how) { char nm[3] = { 's', '0' + i, 0 }; vs_sym(VS[i], 8, nm); have[i] = 1 + how; V[i] = mjs_mk_string(m, VS[i], 8, 1); if (how) { mjs_val_t o = mjs_mk_object(m); mjs_set(m, o, "longname", ~0, V[i]); V[i] = o; } }
static void intact(struct mjs *m, int i) { if (have[i]) { mjs_val_t v = V[i]; if (have[i] == 2) { CHECK(mjs_is_object(v), "still an object"); v = mjs_get(m, v, "longname", ~0); } CHECK(h_streq(m, v, VS[i], 8), "contents kept"); } }
void H_own_hist(void) {
  struct mjs *m = h_new(); int reg[3] = { 0, 0, 0 }, i, j, k; for (i = 0; i < 3; i++) fill(m, i, i == 1);
  for (k = 0; k < NH; k++) { int op = vs_choose(8, "op"); i = op % 3;
    if (op < 3) { mjs_own(m, &V[i]); reg[i]++; } else if (op < 6) { int r = mjs_disown(m, &V[i]); CHECK(!!r == (reg[i] > 0), "disown result"); if (reg[i]) reg[i]--; }
    else if (op == 6) { char t[9] = "garbage!"; mjs_mk_object(m); t[0] = 'A' + k; mjs_gc(m, k & 1); for (j = 0; j < 3; j++) { if (!reg[j]) { have[j] = 0; V[j] = MJS_UNDEFINED; } intact(m, j); } mjs_mk_string(m, t, 8, 1); mjs_set(m, mjs_mk_object(m), t, 8, MJS_UNDEFINED); }
    else { for (j = 0; j < 3; j++) if (have[j] == 0) { fill(m, j, 1 - (j == 1)); if (!reg[j]) break; } } 
    for (j = 0; j < 3; j++) intact(m, j); }
  mjs_gc(m, 1); for (j = 0; j < 3; j++) { if (!reg[j]) have[j] = 0; intact(m, j); } mjs_destroy(m); vs_reach("end"); }
/* strings of different lengths, some kept, some referenced more than once */
void H_gc_strings(void) {
  static const int LEN[] = { 6, 7, 20, 126, 127, 128, 129, 300 }; struct mjs *m = h_new(); int l[5], keep[5], i, n = 5, e = vs_choose(8, "len"); static char b[5][301]; mjs_val_t v[5], w[5], o = mjs_mk_object(m), a = mjs_mk_array(m);
  mjs_own(m, &o); mjs_own(m, &a);
  for (i = 0; i < n; i++) { char nm[3] = { 'b', '0' + i, 0 }; l[i] = LEN[(e + i * 3) % 8]; memset(b[i], 'a' + i, 301); vs_sym(b[i], 7, nm); vs_sym(b[i] + l[i] - 1, 1, nm); v[i] = mjs_mk_string(m, b[i], l[i], 1); w[i] = v[i]; keep[i] = vs_choose(4, "keep"); if (keep[i] == 1) mjs_own(m, &v[i]); else if (keep[i] == 2) { mjs_array_set(m, a, i, v[i]); mjs_array_set(m, a, i + 8, v[i]); mjs_own(m, &v[i]); mjs_own(m, &w[i]); } else if (keep[i] == 3) { mjs_set(m, o, b[i], l[i], v[i]); } }
  for (e = 0; e < 2; e++) { mjs_gc(m, e); for (i = 0; i < n; i++) { if (keep[i] == 1 || keep[i] == 2) CHECK(h_streq(m, v[i], b[i], l[i]), "owned string"); if (keep[i] == 2) CHECK(h_streq(m, w[i], b[i], l[i]) && h_streq(m, mjs_array_get(m, a, i), b[i], l[i]) && h_streq(m, mjs_array_get(m, a, i + 8), b[i], l[i]), "all references"); }
    for (i = n - 1; i >= 0; i--) if (keep[i] == 3) { mjs_val_t it = MJS_UNDEFINED, k; int found = 0; while ((k = mjs_next(m, o, &it)) != MJS_UNDEFINED) if (h_streq(m, k, b[i], l[i])) found++; CHECK(found >= 1, "property name"); CHECK(mjs_is_string(mjs_get(m, o, b[i], l[i])), "property"); }
    mjs_mk_string(m, "some other text", ~0, 1); }
  mjs_destroy(m); vs_reach("end"); }
/* object graphs: every link and root */
#define NO 4
static mjs_val_t G[NO];
static int reachable(int link[NO][2], int roots) { int k, i; for (k = 0; k < NO; k++) for (i = 0; i < NO; i++) if (roots >> i & 1) { if (link[i][0] < NO) roots |= 1 << link[i][0]; if (link[i][1] < NO) roots |= 1 << link[i][1]; } return roots; }
static void graph(struct mjs *m, int link[NO][2], char s[NO][7]) { int i; for (i = 0; i < NO; i++) G[i] = i & 1 ? mjs_mk_array(m) : mjs_mk_object(m); for (i = 0; i < NO; i++) { char nm[9] = "property"; nm[7] = '0' + i; mjs_set(m, G[i], nm, 8, mjs_mk_string(m, s[i], 7, 1)); if (link[i][0] < NO) mjs_set(m, G[i], "l", 1, G[link[i][0]]); if (link[i][1] < NO) mjs_set(m, G[i], "secondlink", ~0, G[link[i][1]]); } }
static void node(struct mjs *m, mjs_val_t g[NO], int link[NO][2], char s[NO][7], int i) { char nm[9] = "property"; mjs_val_t x; nm[7] = '0' + i; CHECK(mjs_is_object(g[i]), "object"); CHECK(h_streq(m, mjs_get(m, g[i], nm, 8), s[i], 7), "its string"); x = mjs_get(m, g[i], "l", 1); CHECK(link[i][0] < NO ? x == g[link[i][0]] : mjs_is_undefined(x), "its link"); x = mjs_get(m, g[i], "secondlink", ~0); CHECK(link[i][1] < NO ? x == g[link[i][1]] : mjs_is_undefined(x), "its second link"); }
void H_gc_graph(void) {
  struct mjs *m = h_new(); int link[NO][2], i, r, e, roots; static char s[NO][7]; mjs_val_t own = MJS_UNDEFINED, g[NO]; for (i = 0; i < NO; i++) { char nm[3] = { 's', '0' + i, 0 }; link[i][0] = vs_choose(NO + 1, "link"); link[i][1] = i < 1 ? vs_choose(NO + 1, "link2") : NO; vs_sym(s[i], 7, nm); }
  r = vs_choose(NO, "root"); e = vs_choose(3, "kind"); graph(m, link, s); memcpy(g, G, sizeof g); roots = 1 << r; mjs_own(m, &own); own = G[r]; if (e == 1) { mjs_set(m, mjs_get_global(m), "rootproperty", ~0, G[r]); own = MJS_UNDEFINED; } else if (e == 2) { mjs_val_t a = mjs_mk_array(m); mjs_array_set(m, a, 2, G[r]); own = a; }
  roots = reachable(link, roots); mjs_gc(m, r & 1);
  /* memory of the rest may be reused at once */ for (i = 0; i < 6; i++) { mjs_val_t o = mjs_mk_object(m); mjs_set(m, o, "otherthings", ~0, mjs_mk_string(m, "other text", ~0, 1)); mjs_set(m, o, "l", 1, o); }
  for (i = 0; i < NO; i++) if (roots >> i & 1) node(m, g, link, s, i); if (e == 2) CHECK(mjs_array_get(m, own, 2) == g[r], "element");
  mjs_gc(m, 0); for (i = 0; i < NO; i++) if (roots >> i & 1) node(m, g, link, s, i); mjs_destroy(m); vs_reach("end"); }
/* the same graphs dropped: their memory is reused */
static size_t cells(const struct gc_arena *a) { size_t n = 0; const struct gc_block *b; for (b = a->blocks; b; b = b->next) n += b->size; return n; }
static size_t heap(struct mjs *m) { return vs_live() * 1000000 + cells(&m->object_arena) * 10000 + cells(&m->property_arena) * 100 + cells(&m->ffi_sig_arena); }
void H_gc_reclaim(void) {
  struct mjs *m = h_new(); int link[NO][2], i, k, w = vs_choose(2, "before"); static char s[NO][7]; size_t h[3], l[3]; mjs_val_t live = MJS_UNDEFINED; for (i = 0; i < NO; i++) { char nm[3] = { 's', '0' + i, 0 }; link[i][0] = vs_choose(NO + 1, "link"); link[i][1] = i < 1 ? vs_choose(NO + 1, "link2") : NO; vs_sym(s[i], 7, nm); }
  mjs_own(m, &live); if (w) { live = mjs_mk_array(m); for (i = 0; i < 5; i++) mjs_array_push(m, live, mjs_mk_object(m)); }
  for (k = 0; k < 3; k++) { graph(m, link, s); mjs_own(m, &G[k]); graph(m, link, s); mjs_disown(m, &G[k]); mjs_gc(m, 0); mjs_gc(m, 1); h[k] = heap(m); l[k] = m->owned_strings.len; } 
  CHECK(h[1] == h[0] && h[2] == h[0], "memory of garbage is reused"); CHECK(l[1] == l[0] && l[2] == l[0], "string memory is reused"); if (w) CHECK(mjs_array_length(m, live) == 5, "live"); mjs_destroy(m); vs_reach("end"); }
/* arenas of several blocks: any subset of objects kept */
#ifndef NB
#define NB 8
#endif
void H_gc_blocks(void) {
  struct mjs *m = h_new(); static mjs_val_t o[NB], n[NB]; static double d[NB], e[NB]; int keep[NB], i, k; for (i = 0; i < NB; i++) { char nm[3] = { 'd', '0' + i, 0 }; vs_sym(&d[i], 8, nm); nm[0] = 'e'; vs_sym(&e[i], 8, nm); o[i] = n[i] = MJS_UNDEFINED; mjs_own(m, &o[i]); mjs_own(m, &n[i]); }
  for (i = 0; i < NB; i++) { o[i] = mjs_mk_object(m); mjs_set(m, o[i], "d", 1, mjs_mk_number(m, d[i])); mjs_set(m, o[i], "me", 2, o[i]); }
  for (i = 0; i < NB; i++) { keep[i] = vs_choose(2, "keep"); if (!keep[i]) o[i] = MJS_UNDEFINED; }
  for (k = 0; k < 2; k++) { mjs_gc(m, k); for (i = 0; i < NB; i++) { if (keep[i]) CHECK(mjs_is_object(o[i]) && h_same(mjs_get_double(m, mjs_get(m, o[i], "d", 1)), d[i]) && mjs_get(m, o[i], "me", 2) == o[i], "kept object"); if (k) CHECK(h_same(mjs_get_double(m, mjs_get(m, n[i], "d", 1)), e[i]) && mjs_get(m, n[i], "me", 2) == n[i], "new object"); }
    if (!k) for (i = 0; i < NB; i++) { int j; n[i] = mjs_mk_object(m); for (j = 0; j < NB; j++) CHECK((!keep[j] || n[i] != o[j]) && (j >= i || n[i] != n[j]), "a cell in use is not given out again"); CHECK(mjs_is_undefined(mjs_get(m, n[i], "d", 1)), "a new object is empty"); mjs_set(m, n[i], "d", 1, mjs_mk_number(m, e[i])); mjs_set(m, n[i], "me", 2, n[i]); } }
  mjs_destroy(m); vs_reach("end"); }
/* loops which drop their results do not grow the heap: thresholds of the engine */
static size_t hm[3], sm[3]; static int nmark;
static void f_mark(struct mjs *m) { int w = nmark++ / 40; size_t h = heap(m), s = m->owned_strings.size; if (w < 3) { if (h > hm[w]) hm[w] = h; if (s > sm[w]) sm[w] = s; } mjs_return(m, MJS_UNDEFINED); }
static const char *const BODY[] = { "let s=A+'x'; s=s+B;", "let o={a:A+B,b:{c:[1,2,[B+'1']]}}; o.self=o; o.b.up=o;", "let a=[1,2,3]; a.push(A+'y'); a.splice(0,2,B+'z',{});", "f(A+C,{x:1});", "JSON.parse(JSON.stringify({a:['longer text',i]}));", "ffi('int len(char*)')(A+'x');", "Object.create({q:A+B}).w=3;", "o[A+'k']=B+'v'; o=({});", "s=(s+A).slice(0,7);", "f.apply({t:A+'t'},[B+'arg']);", "twice(function(a){return {r:a+A};},C+'argument');", "for(let k in {aaaaaaa:1,bbbbbbb:A+B}){ let t=k+'!'; }", "let u={s:A+B}; n(cb,u,i); ffi_cb_free(cb,u);", "g.p=A+'abc'; g.p=null;" , "gs=gs===''?A+B:'';" };
void H_gc_churn(void) {
  struct mjs *m; int p = vs_choose((int) (sizeof(BODY) / sizeof(*BODY)), "body"), w = vs_choose(3, "fill"), i; char src[500]; input(); m = h_new(); S.mode = NONE; for (i = 0; i < w * 5; i++) { h_sets(m, i & 1 ? "v1" : "v2", "filler filler", 6 + i % 8); } env(m); h_setf(m, "mark", f_mark); nmark = 0; memset(hm, 0, sizeof hm); memset(sm, 0, sizeof sm);
  strcpy(src, "let n=ffi('int now(int (*)(userdata,int),userdata,int)'); let cb=function(u,i){ return (u.s+'q').length; }; let g={}; let gs=''; let o={}; let s=''; let f=function(a,b){ let t=a+'t'; return [t,b]; }; for(let i=0;i<120;i++){ "); strcat(src, BODY[p]); strcat(src, " mark(); }");
  h_ok(m, src); CHECK(nmark == 120, "all iterations"); CHECK(hm[1] <= hm[0] && hm[2] <= hm[0] && hm[0], "heap does not grow"); CHECK(sm[1] <= sm[0] && sm[2] <= sm[0], "string heap does not grow"); mjs_destroy(m); vs_reach("end"); }
