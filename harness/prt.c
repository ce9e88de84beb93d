#include "eng.h"
#include <stdarg.h>
/* C26: text printed for values and errors. References are built here. */
#ifndef NB
#define NB 4
#endif
#include "cap.h"
static const int64_t B[] = { 0, 1000, 32768, 99950, 2147483648ll, 99999999990ll, 9007199254740860ll, -1000, -2147483648ll, -9007199254740860ll };
static int ref(int64_t v, char *o) { char t[24]; int n = 0, l = 0; uint64_t u = v < 0 ? 0 - (uint64_t) v : (uint64_t) v; do t[n++] = '0' + u % 10; while (u /= 10); if (v < 0) o[l++] = '-'; while (n) o[l++] = t[--n]; o[l] = 0; return l; }
static int refs(const char *s, int n, char *w) { int i, k = 0; for (i = 0; i < n; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127) w[k++] = c; else { w[k++] = '\\'; w[k++] = 'x'; w[k++] = "0123456789abcdef"[c >> 4]; w[k++] = "0123456789abcdef"[c & 15]; } } w[k] = 0; return k; }
/* a value of a chosen kind, and its text; *fn: a function, whose text is judged by its ends */
static char hostmem[64];
static mjs_val_t mk(struct mjs *m, int k, char *w, int *n, const char *nm) { static const double D[] = { 0.5, -2.25, 3.125, 1234567.75, -0.015625, 1e20, -1e300 }; static const char *const DT[] = { "0.500000", "-2.250000", "3.125000", "1234567.750000", "-0.015625", "1e+20", "-1.0000000000000001e+300" }; static const struct { uint64_t p; const char *t; } P[] = { { 0, "0" }, { 0x1234, "1234" }, { 0xdeadbeef00ull, "deadbeef00" }, { 0x7fffffffffffull, "7fffffffffff" } };
  mjs_val_t v = MJS_UNDEFINED; char s[NB + 8], nn[8]; int l, i; snprintf(nn, 8, "%sk", nm);
  switch (k) { case 0: strcpy(w, "undefined"); break; case 1: v = mjs_mk_null(); strcpy(w, "null"); break; case 2: v = mjs_mk_boolean(m, 1); strcpy(w, "true"); break; case 3: v = mjs_mk_boolean(m, 0); strcpy(w, "false"); break;
    case 4: { int8_t d; int64_t x = B[vs_choose(10, nn)]; vs_sym(&d, 1, nm); x += d; ref(x, w); v = mjs_mk_number(m, (double) x); break; }
    case 5: case 6: l = k == 5 ? vs_choose(NB + 1, nn) : 6; vs_sym(s, l, nm); if (k == 6) for (i = 2; i < 6; i++) s[i] = "z~-\n"[i - 2]; *n = refs(s, l, w); if (k == 6 && vs_choose(2, "foreign")) { memcpy(hostmem, s, l); return mjs_mk_string(m, hostmem, l, 0); } return mjs_mk_string(m, s, l, 1);
    case 7: v = mjs_mk_array(m); strcpy(w, "<array>"); break; case 8: v = mjs_mk_object(m); strcpy(w, "<object>"); break;
    case 9: i = vs_choose(4, nn); v = mjs_mk_foreign(m, (void *) (uintptr_t) P[i].p); snprintf(w, 60, "<foreign_ptr@%s>", P[i].t); break;
    case 10: i = vs_choose(7, nn); v = mjs_mk_number(m, D[i]); strcpy(w, DT[i]); break;
    default: v = h_get(m, "fun"); strcpy(w, "<function@"); *n = -10; return v; }
  *n = strlen(w); return v; }
static void same(const char *got, size_t n, const char *w, int wn, const char *what) { if (wn < 0) { size_t i; CHECK(n > 11 && n < 24 && !memcmp(got, w, 10) && got[n - 1] == '>', what); for (i = 10; i < n - 1; i++) CHECK(got[i] >= '0' && got[i] <= '9', what); } else CHECK(n == (size_t) wn && h_bytes_eq(got, w, n), what); }
#define KINDS 12
/* into a buffer of any size: the text or its beginning, terminated, and nothing outside */
void H_prt_buf(void) { size_t live = vs_live(); struct mjs *m = h_new(); char w[80], o[100]; int n, k, z; mjs_val_t v; h_ok(m, "let fun=function(){return 1;};0"); k = vs_choose(KINDS, "kind"); v = mk(m, k, w, &n, "v"); memset(o, '#', sizeof o);
  if (n < 0) { mjs_sprintf(v, m, o, 60); same(o, strlen(o), w, n, "its text"); } else { z = vs_choose(n + 4, "size"); mjs_sprintf(v, m, o + 8, z); CHECK(h_bytes_eq(o, "########", 8), "nothing before the buffer"); CHECK(h_bytes_eq(o + 8 + z, "########", 8), "nothing after the buffer"); if (z > 0) { int t = n < z - 1 ? n : z - 1; CHECK(h_bytes_eq(o + 8, w, t), "the beginning of its text"); CHECK(o[8 + t] == 0, "terminated"); } }
  mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
void H_prt_file(void) { size_t live = vs_live(); struct mjs *m = h_new(); char w[80], w2[80]; int n, n2, how = vs_choose(2, "how"); mjs_val_t v; h_ok(m, "let fun=function(){return 1;};0"); v = mk(m, vs_choose(KINDS, "kind"), w, &n, "v"); if (how) { mjs_own(m, &v); h_ok(m, "gc(true)"); mjs_disown(m, &v); } mjs_fprintf(v, m, (FILE *) &FA); same(FA.b, FA.n, w, n, "its text");
  if (!how && n >= 0) { size_t at = FA.n; v = mk(m, vs_choose(9, "kind2"), w2, &n2, "u"); mjs_fprintf(v, m, (FILE *) &FA); same(FA.b + at, FA.n - at, w2, n2, "the text of the second"); }
  CHECK(FOUT.n == 0 && FERR.n == 0 && FOTHER.n == 0, "no other file"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* print(): every argument in order, then the end of the line */
void H_prt_print(void) { size_t live = vs_live(); struct mjs *m = h_new(); char w[3][80], s[80], nm[2] = "a"; int n[3], na = vs_choose(4, "nargs"), i, how = vs_choose(3, "how"), two; size_t at = 0; mjs_val_t r; h_ok(m, "let fun=function(){return 1;};0"); for (i = 0; i < na; i++) { static const int K[3][4] = { { 4, 5, 0, 8 }, { 6, 2, 10, 5 }, { 1, 5, 9, 7 } }; static const char *const nms[] = { "a", "b", "c" }; mjs_val_t v = mk(m, K[i][vs_choose(4, "kind")], w[i], &n[i], nms[i]); nm[0] = 'a' + i; mjs_set(m, mjs_get_global(m), nm, 1, v); }
  snprintf(s, 80, how == 0 ? "print(%.*s)" : how == 1 ? "let p=print;p(%.*s)" : "let g=function(){gc(true);return print(%.*s);};g()", na ? 2 * na - 1 : 0, "a,b,c"); if (!na) snprintf(s, 80, how == 0 ? "print()" : how == 1 ? "let p=print;p()" : "let g=function(){return print();};g()");
  r = h_ok(m, s); CHECK(mjs_is_undefined(r), "returns undefined"); for (i = 0; i < na; i++) { if (i) { CHECK(FOUT.n > at && FOUT.b[at] == ' ', "a space between"); at++; } CHECK(FOUT.n >= at + n[i] && h_bytes_eq(FOUT.b + at, w[i], n[i]), "the text of the argument"); at += n[i]; } two = na && FOUT.n > at && FOUT.b[at] == ' '; at += two; CHECK(FOUT.n == at + 1 && FOUT.b[at] == '\n', "the end of the line"); CHECK(FERR.n == 0 && FA.n == 0 && FOTHER.n == 0, "no other file"); h_idle(m, "idle"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* errors: die(), host errors with prefixes, names of codes, mjs_print_error() */
static int RET, E1, E2, PRE, PRE2, MSG; static char T[8]; static int TN;
static void h_fail(struct mjs *m) { if (MSG == 0) mjs_set_errorf(m, (mjs_err_t) E1, "%s#%d", T, -5); else if (MSG == 1) mjs_set_errorf(m, (mjs_err_t) E1, NULL); else mjs_prepend_errorf(m, (mjs_err_t) E1, "%s#%d", T, -5); if (PRE) mjs_prepend_errorf(m, (mjs_err_t) E2, "<%s>", PRE2 ? T : "ctx"); if (RET) mjs_return(m, mjs_mk_undefined()); }
static const char *const NAMES[] = { "NO_ERROR", "SYNTAX_ERROR", "REFERENCE_ERROR", "TYPE_ERROR", "OUT_OF_MEMORY", "INTERNAL_ERROR", "NOT_IMPLEMENTED", "FILE_OPEN_ERROR", "BAD_ARGUMENTS" };
void H_prt_err(void) { size_t live = vs_live(); struct mjs *m = h_new(); int k = vs_choose(3, "kind"), i, trace = vs_choose(2, "trace"), own = vs_choose(2, "own"), l = 0; char w[120] = ""; mjs_err_t e; mjs_val_t r; const char *st; size_t at = 0; h_setf(m, "fail", h_fail); TN = vs_choose(5, "len"); vs_sym(T, TN, "t"); for (i = 0; i < TN; i++) vs_assume(T[i] != 0); T[TN] = 0;
  if (k == 0) { h_sets(m, "s", T, TN); e = h_run(m, "let f=function(x){if(x)die(s);return 1;};\nf(0);\nf(1)", &r); CHECK(e != MJS_OK, "the script fails"); strcpy(w, T); }
  else { E1 = 1 + vs_choose(8, "code"); E2 = 1 + vs_choose(2, "code2"); MSG = vs_choose(3, "msg"); PRE = vs_choose(2, "pre"); PRE2 = vs_choose(2, "pre2"); if (MSG != 1) snprintf(w, 120, PRE ? PRE2 ? "<%s>: %s#-5" : "<%.0sctx>: %s#-5" : "%.0s%s#-5", PRE && PRE2 ? T : "", T); else if (PRE) snprintf(w, 120, "<%s>", PRE2 ? T : "ctx"); 
    RET = k == 1; if (k == 1) { e = h_run(m, "1;\nfail()", &r); CHECK(e == (mjs_err_t) E1, "the first code"); } else { h_fail(m); e = (mjs_err_t) E1; } }
  l = strlen(w); if (l) CHECK(!strcmp(mjs_strerror(m, e), w), "the message"); else { strcpy(w, NAMES[e]); l = strlen(w); CHECK(!strcmp(mjs_strerror(m, e), w), "the name of the error"); }
  st = m->stack_trace; mjs_print_error(m, (FILE *) &FA, own ? "mine" : NULL, trace); if (k != 2) CHECK(st && *st, "a stack trace"); if (trace && st) { at = strlen(st); CHECK(FA.n > at && h_bytes_eq(FA.b, st, at), "the stack trace first"); }
  { const char *h = own ? "mine: " : "MJS error: "; size_t hn = strlen(h); CHECK(FA.n == at + hn + l + 1 && !memcmp(FA.b + at, h, hn) && h_bytes_eq(FA.b + at + hn, w, l) && FA.b[FA.n - 1] == '\n', "one line"); } CHECK(FOUT.n == 0 && FERR.n == 0 && FOTHER.n == 0, "no other file");
  r = h_ok(m, "1+1"); CHECK(r == mjs_mk_number(m, 2), "goes on"); CHECK(!strcmp(mjs_strerror(m, MJS_OK), "NO_ERROR"), "nothing remains of the error"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
