#include "eng.h"
/* C20: the lines reported for an error. The program is put together piece by piece, counting lines as it goes. */
static char T[9000]; static int tn, line;
static void put(const char *s) { while (*s) { if (*s == '\n') line++; T[tn++] = *s++; } T[tn] = 0; }
static int nsym;
static void sym(int n, int nl, const char *ex) { int i; if (nsym++ > 1) { put(nl ? "x\n" : "x"); return; } for (i = 0; i < n; i++) { vs_sym(T + tn, 1, "c"); { char c = T[tn]; const char *e = ex; vs_assume(c != 0); for (; *e; e++) vs_assume(c != *e); if (!nl) vs_assume(c != '\n'); else if (c == '\n') line++; } tn++; } T[tn] = 0; }
static void rep(const char *s, int n) { while (n--) put(s); }
static int uid;
static void id(const char *p) { char b[3] = { (char) ('a' + uid / 26), (char) ('a' + uid % 26), 0 }; uid++; put(p); put("q"); put(b); }
#ifndef NFILL
#define NFILL 17
#endif
static void filler(int k) {
  switch (k) {
    case 0: break;
    case 1: put("\n"); break;
    case 2: put("//"); sym(2, 0, ""); put("\n"); break;
    case 3: put("/*"); sym(3, 1, "*"); put("*/"); break;
    case 4: id("let "); put("='"); sym(2, 1, "'\\"); put("';\n"); break;
    case 5: id("let "); put("=\"x\\\n\\\"\";"); break;
    case 6: id("let "); put("=["); rep("'abcdefgh',", 12); put("1];\n"); break;
    case 7: id("let "); put("=["); rep("'abcdefgh',", 12); rep("\n'x',", 3); put("1];\n"); break;
    case 8: put("if (true) {\n1;\n2;\n}\n"); break;
    case 9: put("if (1) {\n"); rep("'abcdefghij';", 15); put("\n3;\n} else {\n"); rep("'abcdefghij';", 11); put("\n}\n"); break;
    case 10: id("let "); put("=function(a,b){\nlet c=a;\nreturn c;\n};\n"); break;
    case 11: id("let "); put("=function(a,b){\n"); rep("'abcdefghij';\n", 12); put("if (a) {\n"); rep("'abcdefghij';", 12); put("}\nreturn b;\n};\n"); break;
    case 12: put("for (let i=0;i<2;i++) {\n1;\n}\n"); break;
    case 13: id("let "); put("=1;\nwhile (false) {\n"); rep("'abcdefghij';\n", 12); put("}\n"); break;
    case 14: id("let "); put("={\na:1,\nb:[1,\n2]\n};\n"); break;
    case 15: rep("\n", 300); break;
    case 16: put("for (let i in {}) {\n"); rep("'abcdefghij';\n", 12); put("}\n"); break;
  }
}
static const char *const ERR[] = { "null();", "this();", "[]();", "nosuch;", "null.x;", "1();", "'a'-1;", "die('boom');", "nosuch=1;", "JSON.parse('{');", "host();", "1==2;", "let zz=[1,2,nosuch];", "print(1,nosuch.b,2);" };
#define NERR 14
static void host(struct mjs *m) { mjs_prepend_errorf(m, MJS_BAD_ARGS_ERROR, "from the host"); mjs_return(m, MJS_UNDEFINED); }
static char W[200]; static int wn;
static void want(int l) { char b[12]; int n = 0, i; const char *s = "  at <stdin>:"; while (*s) W[wn++] = *s++; do b[n++] = '0' + l % 10; while (l /= 10); for (i = n; i--;) W[wn++] = b[i]; W[wn++] = '\n'; W[wn] = 0; }
static struct mjs *start(void) { struct mjs *m = h_new(); h_setf(m, "host", host); tn = nsym = 0; line = 1; uid = 0; wn = 0; W[0] = T[0] = 0; return m; }
static void judge(struct mjs *m) { mjs_val_t r; char *s = strdup(T); mjs_err_t e = h_run(m, s, &r); free(s); CHECK(e != MJS_OK, "an error"); { const char *t = m->stack_trace; CHECK(t != NULL && !strcmp(t, W), "lines of the stack trace"); } }
static void body(int ctx, int e, int f) {
  int l1, l2, l3;
  switch (ctx) {
    case 0: want(line); put(ERR[e]); break;
    case 1: put("let f=function(){\n"); filler(f); l1 = line; put(ERR[e]); put("\nnull;\n};\n"); want(l1); want(line); put("f();"); break;
    case 2: put("let g=function(){\n"); filler(f); l1 = line; put(ERR[e]); put("};\nlet f=function(){"); l2 = line; put("g();\n"); filler(f); put("};\n"); want(l1); want(l2); want(line); put("f();"); break;
    case 3: put("if (true) {\n"); filler(f); want(line); put(ERR[e]); put("\n"); filler(f); put("}"); break;
    case 4: put("for (let i=0;i<3;i++) {\n"); filler(f); want(line); put(ERR[e]); put("\n}"); break;
    case 5: put("let f=function(c){\n"); filler(f); l1 = line; put("return c();\n};\n"); l2 = line; put("f(function(){ "); l3 = line; put(ERR[e]); put(" });"); want(l3); want(l1); want(l2); break;
    case 6: put("if (false) {\n"); filler(f); put("1;\n} else {\n"); filler(f); want(line); put(ERR[e]); put("\n}"); break;
    case 8: put("let f=function(){\n"); filler(f); put("if (true) {\n"); filler(f); put("for (let i=0;i<3;i++) {\n"); filler(f); put("while (true) {\n"); filler(f); l1 = line; put(ERR[e]); put("\nnull;\n}\n"); filler(f); put("}\n} else {\n"); filler(f); put("}\n"); filler(f); put("};\n"); want(l1); want(line); put("f();"); break;
    case 9: put("let f=function(){\n"); filler(f); put("if (false) {\n"); filler(f); put("} else {\n"); filler(f); put("for (let i in {a:1}) {\n"); filler(f); put("let h=function(x){\n"); filler(f); l1 = line; put(ERR[e]); put("\nnull;\n};\n"); filler(f); l2 = line; put("h(null);\nnull;\n}\n}\n"); filler(f); put("};\n"); want(l1); want(l2); want(line); put("f();"); break;
    case 7: put("let f=function(n){\nif (n === 0) {\n"); filler(f); l1 = line; put(ERR[e]); put("\n}\n"); l2 = line; put("f(n-1);\n};\n"); want(l1); want(l2); want(l2); want(line); put("f(2);"); break;
  }
}
#ifndef SUB
#define SUB 1
#endif
void H_err_line(void) { struct mjs *m = start(); int ctx = vs_choose(10, "ctx"), a = vs_choose(NFILL, "a"), b = vs_choose(NFILL, "b"), e = SUB ? (a + b + ctx) % NERR : vs_choose(NERR, "e"); if (ctx == 0) { filler(a); filler(b); body(ctx, e, 0); } else { filler(a); body(ctx, e, b); } put("\n"); filler(b ? 1 : 8); judge(m); mjs_destroy(m); vs_reach("end"); }
void H_err_kind(void) { struct mjs *m = start(); int ctx = vs_choose(10, "ctx"), e = vs_choose(NERR, "e"), a = 9 + vs_choose(3, "a"); filler(a); body(ctx, e, 8); put("\n"); judge(m); mjs_destroy(m); vs_reach("end"); }
/* code of several scripts: functions defined by an earlier script keep their own lines; every script starts at line 1 */
void H_err_multi(void) { struct mjs *m = start(); int a = vs_choose(NFILL, "a"), b = vs_choose(NFILL, "b"), fail = vs_choose(3, "between"), e = (a + 3 * b) % NERR, l1, l2; mjs_val_t r; char *s;
  filler(a); put("let f=function(c){\n"); filler(b); l1 = line; put(ERR[e]); put("\nnull;\n};\n"); s = strdup(T); CHECK(h_run(m, s, &r) == MJS_OK, "defined"); free(s);
  if (fail == 1) h_run(m, "\n\n\nnosuch;", &r); if (fail == 2) h_run(m, "let zz=\n\n\n;;) 2", &r);
  tn = 0; line = 1; filler(b); put("let g=function(){\n"); l2 = line; put("f();\n};\n"); filler(a); want(l1); want(l2); want(line); put("g();\n"); judge(m); mjs_destroy(m); vs_reach("end"); }
/* the same information as seen from a host function while the script runs */
static int K[6], KL[6];
static void probe(struct mjs *m) { int i; for (i = 0; i < 6; i++) { K[i] = mjs_get_offset_by_call_frame_num(m, i); KL[i] = K[i] < 0 ? -1 : mjs_get_lineno_by_offset(m, K[i]); if (K[i] >= 0) { const char *n = mjs_get_bcode_filename_by_offset(m, K[i]); CHECK(n && !strcmp(n, "<stdin>"), "file name"); } } mjs_return(m, MJS_UNDEFINED); }
void H_err_api(void) { struct mjs *m = start(); int a = vs_choose(NFILL, "a"), b = vs_choose(NFILL, "b"), c = vs_choose(3, "depth"), prev = vs_choose(2, "prev"), l1, l2, l3; mjs_val_t r; h_setf(m, "probe", probe); if (prev) h_ok(m, "\n\nlet zz=1;\n\nlet yy=[1,2,3,'abcdefgh'];"); filler(a); if (c == 0) { l1 = line; put("probe();\n"); filler(b); h_ok(m, T); CHECK(KL[0] == l1 && KL[1] == l1, "line of the call"); CHECK(K[2] == -1, "no further frame"); }
  else { put("let f=function(){\n"); filler(b); l1 = line; put("probe();\n"); filler(b); put("};\n"); if (c == 2) { put("let g=function(){\n"); l3 = line; put("f();\n};\n"); } filler(b); l2 = line; put(c == 2 ? "g();\n" : "f();\n"); h_ok(m, T); CHECK(KL[0] == l1 && KL[1] == l1, "line of the call"); if (c == 1) { CHECK(KL[2] == l2, "line of the outer call"); CHECK(K[3] == -1, "no further frame"); } else { CHECK(KL[2] == l3 && KL[3] == l2, "lines of the outer calls"); CHECK(K[4] == -1, "no further frame"); } } (void) r; mjs_destroy(m); vs_reach("end"); }
/* syntax errors: the message names the line and quotes the text from the offending token on; nothing is run */
void H_err_syn(void) { static const struct { const char *before, *tok; } S[] = { { "let ", "5=1;" }, { "", ")" }, { "1+", "*2;" }, { "let xx=", ";" }, { "({a ", "1});" }, { "if ", "x;" }, { "f(1,", ",2);" }, { "1?2", ";" }, { "let xx=[1,", ",2];" }, { "return ", "]" }, { "while (", ") {};" }, { "for (let i in ", ") {}" } }; struct mjs *m = start(); int a = vs_choose(NFILL, "a"), b = vs_choose(NFILL, "b"), k = vs_choose(12, "k"), in = vs_choose(3, "in"), nl = vs_choose(3, "nl"), n = 0, l; mjs_val_t r; char w[64]; const char *t; char d[12]; h_setn(m, "seen", 0); put("seen=1;\n"); filler(a); if (in == 1) put("let f=function(){\n"); if (in == 2) put("if (true) {\n"); filler(b); put(S[k].before); rep("\n", nl); l = line; { int q = tn; put(S[k].tok); put("\n\n12345678901"); strcpy(w, "parse error at line "); n = strlen(w); { int x = l, c = 0; do d[c++] = '0' + x % 10; while (x /= 10); while (c) w[n++] = d[--c]; } w[n++] = ':'; w[n++] = ' '; w[n++] = '['; memcpy(w + n, T + q, 10); n += 10; w[n++] = ']'; w[n] = 0; }
  CHECK(h_run(m, T, &r) == MJS_SYNTAX_ERROR, "a syntax error"); t = mjs_strerror(m, MJS_SYNTAX_ERROR); CHECK(!strcmp(t, w), "the message"); CHECK(h_get(m, "seen") == mjs_mk_number(m, 0), "nothing was run"); mjs_destroy(m); vs_reach("end"); }
/* bytes which cannot begin any token, and words which are reserved but not implemented */
void H_err_byte(void) { static const char *const KW[] = { "var", "new", "delete", "switch", "case", "do", "try", "catch", "throw", "void", "with", "instanceof" }; struct mjs *m = start(); int a = vs_choose(NFILL, "a"), in = vs_choose(4, "in"), kw = vs_choose(13, "kw"), n, c, x; mjs_val_t r; char w[64], d[12]; const char *t; static const char *const IN[] = { "", "let f=function(a){\nif (a) {\n", "while (true) { for (let k in {}) {\n", "let o={a:function(){\n" }; filler(a); put(IN[in]);
  if (kw == 12) { int q = tn; sym(1, 0, ""); c = (unsigned char) T[q]; vs_assume((c == '#') | (c == '@') | (c == '`') | (c == '\\') | (c == 127) | (c >= 128) | (c < 9) | ((c > 13) & (c < 32))); put("zz;\n\n1234567890"); strcpy(w, "parse error at line "); n = strlen(w); x = line - 2; c = 0; do d[c++] = '0' + x % 10; while (x /= 10); while (c) w[n++] = d[--c]; strcpy(w + n, ": ["); n += 3; memcpy(w + n, T + q, 10); n += 10; w[n++] = ']'; w[n] = 0; }
  else { put(KW[kw]); put(" x;\n\n};}}"); strcpy(w, "["); strcat(w, KW[kw]); strcat(w, "] is not implemented"); }
  CHECK(h_run(m, T, &r) == MJS_SYNTAX_ERROR, "a syntax error"); t = mjs_strerror(m, MJS_SYNTAX_ERROR); for (n = 0; w[n]; n++) CHECK(t[n] == w[n], "the message"); CHECK(t[n] == 0, "the message ends"); mjs_destroy(m); vs_reach("end"); }
