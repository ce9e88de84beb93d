#include "eng.h"
#include "gen_lib.h"
/* C25: the Math and File libraries of lib/ (text taken from the tree) on recorded C functions */
static const char *called; static double a0, a1, ret; static int na, iret, irets;
#define M1(n) static double l_##n(double x) { called = #n; na = 1; a0 = x; return ret; }
#define M2(n) static double l_##n(double x, double y) { called = #n; na = 2; a0 = x; a1 = y; return ret; }
M1(ceil) M1(floor) M1(round) M1(fabs) M1(sqrt) M1(exp) M1(log) M1(sin) M1(cos) M2(fmax) M2(fmin) M2(pow)
static int l_rand(void) { called = "rand"; irets++; return iret; }
#ifndef NC
#define NC 22
#endif
static struct { char d[2 * NC + 8]; size_t n; int exists; } F; static int isopen, opens, closes, faults, maxf, canopen = 1; static char opath[20], omode[8], rpath[20], rpath2[20]; static size_t pos; static int removed, renamed, full, hdl, ret_;
static int fault(const char *w) { if (faults >= maxf || !vs_choose(2, w)) return 0; faults++; return 1; }
static void *l_fopen(const char *p, const char *m) { strncpy(opath, p, 19); strncpy(omode, m, 7); if (!canopen || fault("open")) return NULL; if (*m == 'r' && !F.exists) return NULL; CHECK(!isopen, "one file at a time"); isopen = 1; opens++; if (*m == 'w') F.n = 0; F.exists = 1; pos = *m == 'a' ? F.n : 0; return &hdl; }
static void l_fclose(void *f) { CHECK(f == &hdl && isopen, "closes the open file once"); isopen = 0; closes++; }
static int l_fread(char *b, int s, int n, void *f) { int k = s * n; CHECK(f == &hdl && isopen && k >= 0, "reads the open file"); if ((size_t) k > F.n - pos) k = F.n - pos; if (k && fault("read")) k = vs_choose(2, "short") ? 1 : 0; memcpy(b, F.d + pos, k); pos += k; return s ? k / s : 0; }
static int l_fwrite(const char *b, int s, int n, void *f) { int k = s * n; CHECK(f == &hdl && isopen && k >= 0, "writes the open file"); if (full) { static int again; CHECK(again++ < 40, "gives up when nothing can be written"); k = 0; } else if (fault("write")) { int w = vs_choose(3, "short"); full = w == 2; k = w == 1 ? k - 1 : 0; } CHECK(pos + k <= sizeof F.d, "writes what it is given"); memcpy(F.d + pos, b, k); pos += k; if (pos > F.n) F.n = pos; return s ? k / s : 0; }
static int l_remove(const char *p) { strncpy(rpath, p, 19); removed++; return ret_; }
static int l_rename(const char *p, const char *q) { strncpy(rpath, p, 19); strncpy(rpath2, q, 19); renamed++; return ret_; }
static void *rs(void *h, const char *n) { static const struct { const char *n; void *f; } T[] = { 
#define E(x) { #x, (void *) l_##x },
 E(ceil) E(floor) E(round) E(fabs) E(sqrt) E(exp) E(log) E(sin) E(cos) E(fmax) E(fmin) E(pow) E(rand) E(fopen) E(fclose) E(fread) E(fwrite) E(remove) E(rename) }; size_t i; (void) h; for (i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(n, T[i].n)) return T[i].f; return NULL; }
static struct mjs *lib(const char *t) { struct mjs *m = h_new(); mjs_set_ffi_resolver(m, rs); h_ok(m, t); return m; }
/* every function of Math calls the C function of its meaning with its arguments and returns what that returns */
void H_lib_math(void) { size_t live = vs_live(); struct mjs *m = lib(LIB_api_math_js); static const struct { const char *js, *c; int n; } T[] = { { "ceil", "ceil", 1 }, { "floor", "floor", 1 }, { "round", "round", 1 }, { "abs", "fabs", 1 }, { "sqrt", "sqrt", 1 }, { "exp", "exp", 1 }, { "log", "log", 1 }, { "sin", "sin", 1 }, { "cos", "cos", 1 }, { "max", "fmax", 2 }, { "min", "fmin", 2 }, { "pow", "pow", 2 } }; int k = vs_choose(12, "function"), how = vs_choose(3, "how"); double x, y; char s[60]; mjs_val_t r; vs_sym(&x, 8, "x"); vs_sym(&y, 8, "y"); vs_sym(&ret, 8, "ret"); vs_assume(!h_isnan(x)); vs_assume(!h_isnan(y)); h_setn(m, "x", x); h_setn(m, "y", y);
  snprintf(s, 60, how == 0 ? "Math.%s(%s)" : how == 1 ? "let f=Math.%s;f(%s)" : "let g=function(){return Math.%s(%s);};g()", T[k].js, T[k].n == 1 ? "x" : "x,y"); called = NULL; r = h_ok(m, s); CHECK(called && !strcmp(called, T[k].c), "the C function"); CHECK(d2u(a0) == d2u(x) && (T[k].n == 1 || d2u(a1) == d2u(y)) && na == T[k].n, "its arguments"); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), ret), "its result"); h_idle(m, "idle");
  called = NULL; snprintf(s, 60, "Math.%s(%s)", T[k].js, T[k].n == 1 ? "x,y" : "x"); CHECK(h_run(m, s, &r) != MJS_OK && !called, "wrong number of arguments"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
void H_lib_random(void) { struct mjs *m = lib(LIB_api_math_js); mjs_val_t r; double d; int how = vs_choose(3, "how"); vs_sym(&iret, 4, "rand"); vs_assume(iret >= 0); if (how == 2) { r = h_ok(m, "Math.rand()"); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), (double) iret), "the C function"); } else { r = h_ok(m, how ? "let q={r:0};q.r=Math.random();q.r" : "Math.random()"); CHECK(mjs_is_number(r), "a number"); d = mjs_get_double(m, r); CHECK((d >= 0) & (d <= 1), "from 0 to 1"); if (iret == 0) CHECK(d == 0, "the least"); if (iret == 0x7fffffff) CHECK(d == 1, "the greatest"); } CHECK(irets == 1, "one call"); mjs_destroy(m); vs_reach("end"); }
/* reading gives exactly the content */
void H_lib_read(void) { size_t live = vs_live(); struct mjs *m = lib(LIB_api_file_js); int n = vs_choose(NC + 1, "n"), how = vs_choose(3, "how"); mjs_val_t r; char o[NC + 1]; vs_sym(o, n, "b"); memcpy(F.d, o, n); F.n = n; F.exists = vs_choose(2, "exists"); maxf = 1; 
  r = h_ok(m, how == 0 ? "File.read('some.txt')" : how == 1 ? "let q=function(n){let res='zz',buf='yy',fp=1;let t=File.read(n);return t===null?null:res+t+buf;};q('some.txt')" : "let a=[File.read('some.txt')];gc(true);a[0]");
  CHECK(!strcmp(opath, "some.txt") && omode[0] == 'r', "the file named"); CHECK(opens == closes, "closed"); mjs_own(m, &r);
  if (!F.exists || !opens) { if (how == 1) { } else CHECK(mjs_is_null(r) || h_streq(m, r, "", 0), "no content"); }
  else if (how == 1) { CHECK(faults || (mjs_is_string(r)), "a string"); if (!faults) { size_t l; const char *p = mjs_get_string(m, &r, &l); CHECK(l == (size_t) n + 4 && !memcmp(p, "zz", 2) && h_bytes_eq(p + 2, o, n) && !memcmp(p + 2 + n, "yy", 2), "the content"); } }
  else { size_t l; const char *p = mjs_get_string(m, &r, &l); CHECK(mjs_is_string(r) && (faults ? l <= (size_t) n : l == (size_t) n) && h_bytes_eq(p, o, l), "the content"); }
  CHECK(F.n == (size_t) n && h_bytes_eq(F.d, o, n), "the file is untouched"); mjs_disown(m, &r); h_idle(m, "idle"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* writing leaves exactly the string in the file, or appends it, and tells how much was written */
void H_lib_write(void) { size_t live = vs_live(); struct mjs *m = lib(LIB_api_file_js); int n = vs_choose(NC + 1, "n"), old = vs_choose(3, "old"), mode = vs_choose(4, "mode"), base; mjs_val_t r; char o[NC + 1], z[3]; double d; vs_sym(o, n, "b"); vs_sym(z, old, "o"); memcpy(F.d, z, old); F.n = old; F.exists = old > 0; maxf = 1; canopen = vs_choose(2, "canopen"); h_sets(m, "s", o, n);
  r = h_ok(m, mode == 0 ? "File.write(s,'dir/f')" : mode == 1 ? "File.write(s,'dir/f','w')" : mode == 2 ? "File.write(s,'dir/f','a')" : "let off=3;let len=2;let n=1;let x=File.write(s,'dir/f',undefined);off===3&&len===2&&n===1?x:-1"); CHECK(!strcmp(opath, "dir/f") && omode[0] == (mode == 2 ? 'a' : 'w'), "the file named and the mode"); CHECK(opens == closes, "closed"); CHECK(mjs_is_number(r), "a number"); d = mjs_get_double(m, r); base = mode == 2 ? old : 0;
  if (!opens) { CHECK(d == 0 && F.n == (size_t) old && h_bytes_eq(F.d, z, old), "nothing is written"); } else { CHECK(d >= 0 && d <= n && F.n == base + (size_t) d, "as much as it says"); if (!faults) CHECK(d == n, "everything"); CHECK(h_bytes_eq(F.d, z, base) && h_bytes_eq(F.d + base, o, (size_t) d), "the bytes of the string"); } CHECK(h_streq(m, h_get(m, "s"), o, n), "the string is untouched"); h_idle(m, "idle"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* round trip, remove, rename */
void H_lib_file(void) { size_t live = vs_live(); struct mjs *m = lib(LIB_api_file_js); int k = vs_choose(3, "kind"), n = vs_choose(NC + 1, "n"); char o[NC + 1]; mjs_val_t r; vs_sym(o, n, "b"); vs_sym(&ret_, 4, "ret"); h_sets(m, "s", o, n); if (k == 0) { r = h_ok(m, "File.write(s,'f');File.write(s,'f','a');File.read('f')===s+s"); CHECK(r == mjs_mk_boolean(m, 1), "what was written is read back"); } else { r = h_ok(m, k == 1 ? "File.remove('a/b')" : "File.rename('a/b','c/def')"); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), (double) ret_), "the result"); CHECK(removed == (k == 1) && renamed == (k == 2) && !strcmp(rpath, "a/b") && (k == 1 || !strcmp(rpath2, "c/def")), "the file named"); } CHECK(!isopen, "closed"); mjs_destroy(m); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
