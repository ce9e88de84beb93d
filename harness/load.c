#include "eng.h"
/* C23: load(). File contents are supplied by the harness. */
static char FA[400], FB[400]; static int HA, HB, reads;
const char *vs_file_data(const char *name, size_t *len) { if (!strcmp(name, "a.js") && HA) { reads++; *len = strlen(FA); return FA; } if (!strcmp(name, "lib/b.js") && HB) { reads++; *len = strlen(FB); return FB; } return NULL; }
static int ticks; static void tick(struct mjs *m) { ticks++; mjs_return(m, MJS_UNDEFINED); }
static const char *const TXT[] = { "", "7;", "let v=1;v+#;", "let f=function(a){return a*#;};f(3);", "x;", "x=x+#;x;", "let o={a:[1,#]};o.a[1];", "let s=0;for(let i=0;i<#;i++){s=s+i;}s;", "'abcdefgh'+'#';", "let x=#;x;", "if(x===#){'yes';}else{'no';}", "// c #\n\n\nx*2", "let y={};y.z=#;y.z=y.z+x;y.z", "this===undefined", "let k=0;while(true){k++;if(k===3){break;}}k;" };
#define NTXT 15
static void fill(char *d, int k, char c) { const char *s = TXT[k]; while (*s) { *d++ = *s == '#' ? c : *s; s++; } *d = 0; }
/* same value and same variables as the text given directly; the caller's expression goes on */
static const char *const NM[] = { "v", "f", "x", "o", "s", "y", "k" };
static int same_val(struct mjs *a, mjs_val_t x, struct mjs *b, mjs_val_t y) { size_t n; const char *s; if (mjs_is_string(x)) { s = mjs_get_string(a, &x, &n); return h_streq(b, y, s, n); } if (mjs_is_number(x) && mjs_is_number(y)) return h_same(mjs_get_double(a, x), mjs_get_double(b, y)); if (mjs_is_object(x) || mjs_is_function(x)) return mjs_is_object(x) == mjs_is_object(y) && mjs_is_function(x) == mjs_is_function(y); return x == y; }
void H_load_same(void) { size_t live = vs_live(); struct mjs *m = h_new(), *w = h_new(); int k = vs_choose(NTXT, "text"), ctx = vs_choose(6, "ctx"), i; char c; mjs_val_t r = MJS_UNDEFINED, q; vs_sym(&c, 1, "c"); vs_assume((c >= '1') & (c <= '9')); if (k == 7) vs_assume(c < '4'); fill(FA, k, c); HA = 1; h_setn(m, "x", 4); h_setn(w, "x", 4); q = h_ok(w, FA);
  switch (ctx) { case 0: r = h_ok(m, "load('a.js')"); break; case 1: r = h_ok(m, "[1,load('a.js'),3][1]"); break; case 2: { mjs_err_t e = mjs_exec_file(m, "a.js", &r); CHECK(e == MJS_OK, "file runs"); break; } case 3: r = h_ok(m, "let p={q:{r:load('a.js')}};p.q.r"); break; case 4: r = h_ok(m, "(function(z){return z;})(load('a.js'))"); break; case 5: r = h_ok(m, "let ww=load('a.js');true?ww:0"); break; }
  CHECK(same_val(w, q, m, r), "the value of the text"); for (i = 0; i < 7; i++) { CHECK(same_val(w, h_get(w, NM[i]), m, h_get(m, NM[i])), "the variables of the text"); } if (ctx != 3 && ctx != 5) h_idle(m, "idle"); CHECK(reads == 1, "read once"); mjs_destroy(m); mjs_destroy(w); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* namespaces: definitions go to the object given, or to the scope of the caller; other names are looked up outwards */
void H_load_ns(void) { size_t live = vs_live(); struct mjs *m = h_new(); int k = vs_choose(6, "kind"), once = vs_choose(2, "before"); char c; mjs_val_t r; vs_sym(&c, 1, "c"); vs_assume((c >= '1') & (c <= '9')); HA = 1; strcpy(FA, "let n1=#;let n2=out+n1;out2=n2;n2;"); { char *p = strchr(FA, '#'); *p = c; } { double d = c - '0', w = 10 + d; h_setn(m, "out", 10); h_setn(m, "out2", 0); h_setn(m, "d", d);
  if (once) h_ok(m, "load('a.js',{});");
  switch (k) {
    case 0: r = h_ok(m, "let ns={};let r=load('a.js',ns);[r===10+d,ns.n1===d,ns.n2===10+d,out2===10+d]"); CHECK(h_get(m, "n1") == MJS_UNDEFINED && h_get(m, "n2") == MJS_UNDEFINED, "not in the globals"); break;
    case 1: r = h_ok(m, "let ns={n1:50,out:20};let r=load('a.js',ns);[r===20+d,ns.n1===d,ns.n2===20+d,out===10]"); w = 20 + d; break;
    case 2: r = h_ok(m, "let g=function(){load('a.js',{});return n1;};let n1=5;[g()===5]"); break;
    case 3: r = h_ok(m, "let g=function(){let ns={};load('a.js',ns);return ns.n2;};[g()===10+d]"); break;
    case 4: r = h_ok(m, "let ns={};load('a.js',ns);ns.n1=0;load('a.js',ns);let o2={out:1};load('a.js',o2);[ns.n1===d,o2.n2===1+d]"); w = 1 + d; break;
    default: if (once) { r = MJS_UNDEFINED; goto end; } r = h_ok(m, "let g=function(){let r=load('a.js');return [r===10+d,n1===d,n2===10+d];};g()"); CHECK(h_get(m, "n1") == MJS_UNDEFINED && h_get(m, "n2") == MJS_UNDEFINED, "not in the globals"); break; }
  { unsigned long i, n; mjs_own(m, &r); n = mjs_array_length(m, r); CHECK(n > 0, "an array"); for (i = 0; i < n; i++) CHECK(mjs_array_get(m, r, i) == mjs_mk_boolean(m, 1), "namespace"); mjs_disown(m, &r); } CHECK(h_same(mjs_get_double(m, h_get(m, "out2")), w), "outer variables are assigned"); CHECK(h_same(mjs_get_double(m, h_get(m, "out")), 10), "outer variables stay"); CHECK(m->scopes.len == sizeof(mjs_val_t), "scopes"); }
end: mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* histories of loads of two files which may be missing, malformed, failing at run time (until told otherwise) or fine */
#ifndef STEPS
#define STEPS 3
#endif
static const char *const C[] = { "tick();11;", "tick();if(bad){nosuch;}12;", "tick(;", "let q1=1;tick();{tick();let f9=function(){nosuch;};if(bad){f9();}}'abcdefgh';" };
void H_load_hist(void) { size_t live = vs_live(); struct mjs *m = h_new(); int i, s, ka = vs_choose(4, "a"), kb = vs_choose(4, "b"), want = 0, bad = 0; int reg[2] = { 0, 0 }, ok[2] = { 0, 0 }; h_setf(m, "tick", tick); h_setn(m, "bad", 0); strcpy(FA, C[ka]); strcpy(FB, C[kb]); HA = HB = 1;
  for (i = 0; i < STEPS; i++) { mjs_val_t r = MJS_UNDEFINED; mjs_err_t e; int f, how, k, run, fails, have; s = vs_choose(9, "step"); if (s == 8) { int w = vs_choose(3, "what"); if (w == 0) { bad = !bad; h_setn(m, "bad", bad); } else if (w == 1) HA = !HA; else { vs_assume(!reg[0]); ka = ka == 2 ? 0 : 2; strcpy(FA, C[ka]); } continue; }
    f = s & 1; how = s >> 1; k = f ? kb : ka; have = f ? HB : HA;
    if (how == 0) e = h_run(m, f ? "load('lib/b.js')" : "load('a.js')", &r); else if (how == 1) e = h_run(m, f ? "load('lib/b.js',{})" : "load('a.js',{})", &r); else if (how == 2) e = h_run(m, f ? "let f=function(){return load('lib/b.js');};f()" : "let f=function(){return load('a.js');};f()", &r); else e = mjs_exec_file(m, f ? "lib/b.js" : "a.js", &r);
    if (how == 3 && reg[f]) { run = 0; fails = 0; if (!have) fails = MJS_FILE_READ_ERROR; else if (k == 2) fails = MJS_SYNTAX_ERROR; else { run = 1; fails = bad && k != 0 ? MJS_REFERENCE_ERROR : 0; } }
    else if (!reg[f]) { if (!have) { run = 0; fails = MJS_FILE_READ_ERROR; } else if (k == 2) { run = 0; fails = MJS_SYNTAX_ERROR; } else { run = 1; fails = bad && k != 0 ? MJS_REFERENCE_ERROR : 0; reg[f] = 1; ok[f] = !fails; } }
    else if (how == 1 || !ok[f]) { run = 1; fails = bad && k != 0 ? MJS_REFERENCE_ERROR : 0; ok[f] = !fails; } else { run = 0; fails = 0; }
    if (run) want += k == 3 ? 2 : 1; CHECK(ticks == want, "run as often as it should"); CHECK((int) e == fails, "outcome"); h_idle(m, "idle");
    if (run && !fails) { if (k == 3) CHECK(h_streq(m, r, "abcdefgh", 8), "value"); else CHECK(r == mjs_mk_number(m, k == 0 ? 11 : 12), "value"); } if (fails) { const char *t = mjs_strerror(m, e); CHECK(how == 3 || !strncmp(t, f ? "failed to exec file \"lib/b.js\": " : "failed to exec file \"a.js\": ", f ? 32 : 28), "the message names the file"); } }
  mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }

/* any content: the same outcome as the text given directly */
#ifndef NR
#define NR 3
#endif
void H_load_raw(void) { size_t live = vs_live(); struct mjs *m = h_new(), *w = h_new(); int n = vs_choose(NR + 1, "n"), i, how = vs_choose(2, "how"); mjs_val_t q, r; mjs_err_t e, g; vs_sym(FA, n, "b"); for (i = 0; i < n; i++) vs_assume(FA[i] != 0); HA = 1; e = h_run(w, FA, &q); if (e) vs_assume(!strstr(mjs_strerror(w, e), "stack underflow")); /* malformed code such as 0='' is accepted by the parser and takes what it finds on the stack */ g = how ? h_run(m, "load('a.js')", &r) : mjs_exec_file(m, "a.js", &r); CHECK(e == g, "same outcome"); if (!e) CHECK(same_val(w, q, m, r), "same value"); h_idle(m, "idle"); mjs_destroy(m); mjs_destroy(w); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* C20: lines and names of files; callbacks run by the host; one entry per active call */
static void cbk(struct mjs *m) { mjs_val_t r = MJS_UNDEFINED; mjs_call(m, &r, mjs_arg(m, 0), MJS_UNDEFINED, 1, mjs_mk_number(m, 1)); mjs_return(m, r); }
static void put(char *d, const char *s, int *l) { d += strlen(d); while (*s) { if (*s == '\n' && l) ++*l; *d++ = *s++; } *d = 0; }
static void num(char *d, int v) { char b[12], o[12]; int n = 0, k = 0; do b[n++] = '0' + v % 10; while (v /= 10); while (n) o[k++] = b[--n]; o[k] = 0; put(d, o, 0); }
static void at(char *d, const char *f, int l) { put(d, "  at ", 0); put(d, f, 0); put(d, ":", 0); num(d, l); put(d, "\n", 0); }
void H_load_trace(void) { struct mjs *m = h_new(); static char S[400], W[400]; static const char *const F[] = { "", "\n", "// x\n", "let a='\n\n';", "let b=function(x){\nreturn x;\n};\n", "/*\n\n*/ 1;" }; int ia = vs_choose(6, "fa"), ib = vs_choose(6, "fb"), is = vs_choose(6, "fs"), k = vs_choose(8, "kind"), la = 1, lb = 1, ls = 1, l1, l2, l3; mjs_val_t r; const char *t;
  FA[0] = FB[0] = S[0] = W[0] = 0; HA = HB = 1; h_setf(m, "cbk", cbk); put(FB, F[ib], &lb); put(FA, F[ia], &la); put(S, F[is], &ls);
  switch (k) {
    case 0: at(W, "a.js", la); put(FA, "nosuch;", 0); at(W, "<stdin>", ls); put(S, "load('a.js');", 0); break;
    case 1: at(W, "lib/b.js", lb); put(FB, "nosuch;", 0); at(W, "a.js", la); put(FA, "load('lib/b.js');", 0); at(W, "<stdin>", ls); put(S, "load('a.js',{});", 0); break;
    case 2: put(FB, "let g=function(){\n", &lb); at(W, "lib/b.js", lb); put(FB, "null();\n};\n", 0); at(W, "a.js", la); put(FA, "load('lib/b.js');g();", 0); put(S, "let h=function(){\n", &ls); at(W, "<stdin>", ls); put(S, "load('a.js');\n};\n", &ls); at(W, "<stdin>", ls); put(S, "h();", 0); break;
    case 3: put(FA, "let g=function(){\n", &la); at(W, "a.js", la); put(FA, "1();};\n", 0); put(S, "load('a.js');\n", &ls); at(W, "<stdin>", ls); put(S, "g();", 0); break;
    case 4: at(W, "<stdin>", ls); put(S, "load('none.js');", 0); break;
    case 5: put(S, "let g=function(a){\n", &ls); l1 = ls; put(S, "nosuch;\n};\nlet h=function(){\n", &ls); l2 = ls; put(S, "cbk(g);\n};\n", &ls); l3 = ls; put(S, "h();", 0); at(W, "<stdin>", l1); at(W, "<stdin>", l2); at(W, "<stdin>", l3); break;
    case 6: put(S, "let g=function(a){\n", &ls); l1 = ls; put(S, "nosuch;\n};\n", &ls); l2 = ls; put(S, "g.apply(null,[1]);", 0); at(W, "<stdin>", l1); at(W, "<stdin>", l2); break;
    default: put(S, "let g=function(a){\n", &ls); l1 = ls; put(S, "load('a.js');\n};\n", &ls); l2 = ls; put(FA, "\n", &la); put(FA, "cbk(function(){load('lib/b.js');});", 0); put(FB, "\n\n", &lb); put(FB, "nosuch;", 0); put(S, "cbk(g);", 0); at(W, "lib/b.js", lb); at(W, "a.js", la); at(W, "a.js", la); at(W, "<stdin>", l1); at(W, "<stdin>", l2); break; }
  CHECK(h_run(m, S, &r) != MJS_OK, "an error"); t = m->stack_trace; CHECK(t && !strcmp(t, W), "stack trace"); mjs_destroy(m); vs_reach("end"); }
