#include "eng.h"
/* C04: strings are byte sequences; a model string is the plain array it was made from */
typedef struct { char b[24]; int n; } S;
#define NSTO 5
static char fbuf[4][32];
static int has_bad(const S *s) { int i; for (i = 0; i < s->n; i++) if (s->b[i] < ' ' || s->b[i] > '~' || s->b[i] == '\'' || s->b[i] == '\\') return 1; return 0; }
/* define global `name` holding s, in one of several storages */
static void put(struct mjs *m, const char *name, const S *s, int sto, int slot) {
  char src[120]; int i, h; 
  switch (sto) {
    case 0: h_sets(m, name, s->b, s->n); return;
    case 1: memcpy(fbuf[slot], s->b, s->n); mjs_set(m, mjs_get_global(m), name, ~0, mjs_mk_string(m, fbuf[slot], s->n, 0)); return;
    case 2: /* literal: bytes that need no escape */ ASSUME(!has_bad(s)); strcpy(src, "let "); strcat(src, name); strcat(src, "='"); h = strlen(src); for (i = 0; i < s->n; i++) src[h + i] = s->b[i]; strcpy(src + h + s->n, "';"); h_ok(m, src); return;
    case 3: /* concatenation of two halves */ h = s->n / 2; h_sets(m, "h0", s->b, h); h_sets(m, "h1", s->b + h, s->n - h); strcpy(src, "let "); strcat(src, name); strcat(src, "=h0+h1;"); h_ok(m, src); return;
    default: { /* slice of a longer string */ S t; t.b[0] = 'q'; memcpy(t.b + 1, s->b, s->n); t.b[s->n + 1] = 'w'; t.b[s->n + 2] = 'e'; h_sets(m, "t0", t.b, s->n + 3); h_setn(m, "n0", s->n + 1); strcpy(src, "let "); strcat(src, name); strcat(src, "=t0.slice(1,n0);"); h_ok(m, src); return; }
  }
}
static void sym(S *s, int lo, int hi, const char *name) { s->n = lo + vs_choose(hi - lo + 1, "len"); if (s->n) vs_sym(s->b, s->n, name); }
static void same(struct mjs *m, mjs_val_t v, const char *b, int n, const char *what) { size_t k = 0; CHECK(mjs_is_string(v), what); const char *p = mjs_get_string(m, &v, &k); CHECK(k == (size_t) n, what); if (k == (size_t) n) CHECK(h_bytes_eq(p, b, n), what); }
static int norm(int i, int n) { long x = i; if (x < 0) x += n; if (x < 0) x = 0; if (x > n) x = n; return (int) x; }
void H_str_get(void) {
  struct mjs *m = h_new(); S s; sym(&s, 0, 7, "s"); put(m, "s", &s, vs_choose(NSTO, "sto"), 0);
  same(m, h_get(m, "s"), s.b, s.n, "a string has the bytes it was made from");
  mjs_val_t r = h_ok(m, "s.length"); CHECK(mjs_get_double(m, r) == s.n, "length is the number of bytes");
  int i; for (i = 0; i < s.n + 2; i++) { h_setn(m, "i", i); r = h_ok(m, "s[i]"); if (i < s.n) same(m, r, s.b + i, 1, "subscript yields the byte as a string"); else CHECK(mjs_is_undefined(r), "subscript past the end is undefined"); }
  r = h_ok(m, "s[-1]"); CHECK(mjs_is_undefined(r), "a negative subscript is undefined");
  same(m, h_get(m, "s"), s.b, s.n, "reading does not change a string"); vs_reach("end");
}
void H_str_at(void) {
  struct mjs *m = h_new(); S s; int i, w; sym(&s, 0, 6, "s"); put(m, "s", &s, vs_choose(NSTO, "sto"), 0); vs_sym(&i, 4, "i"); h_setn(m, "i", i);
  w = norm(i, s.n); int alt = vs_choose(2, "alt"); mjs_val_t r = h_ok(m, alt ? "s.charCodeAt(i)" : "s.at(i)");
  if (w < s.n) { CHECK(mjs_is_number(r) && mjs_get_double(m, r) == (double) (int) (unsigned char) s.b[vs_conc(w)], "at() yields the byte value"); vs_reach("in"); } else { CHECK(mjs_is_undefined(r), "at() past the end is undefined"); vs_reach("out"); }
}
void H_str_slice(void) {
  struct mjs *m = h_new(); S s; int a, b, x, y; sym(&s, 0, 7, "s"); put(m, "s", &s, vs_choose(NSTO, "sto"), 0); vs_sym(&a, 4, "a"); vs_sym(&b, 4, "b"); h_setn(m, "a", a); h_setn(m, "b", b);
  int two = vs_choose(2, "two"); mjs_val_t r = h_ok(m, two ? "s.slice(a,b)" : "s.slice(a)"); x = vs_conc(norm(a, s.n)); y = two ? vs_conc(norm(b, s.n)) : s.n; if (y < x) y = x;
  same(m, r, s.b + x, y - x, "slice yields the bytes between begin and end"); same(m, h_get(m, "s"), s.b, s.n, "slice does not change its string"); vs_reach("end");
}
void H_str_cat(void) {
  struct mjs *m = h_new(); S a, b, c; int x = vs_choose(NSTO, "sto"), y = vs_choose(NSTO, "sto"); sym(&a, 0, 6, "a"); sym(&b, 0, 6, "b"); put(m, "a", &a, x, 0); put(m, "b", &b, y, 1);
  mjs_val_t r = h_ok(m, "let c=a+b;c"); memcpy(c.b, a.b, a.n); memcpy(c.b + a.n, b.b, b.n); same(m, r, c.b, a.n + b.n, "concatenation is the bytes of both");
  same(m, h_get(m, "a"), a.b, a.n, "operands unchanged"); same(m, h_get(m, "b"), b.b, b.n, "operands unchanged");
  r = h_ok(m, "let d=c;c=c+a;d"); same(m, r, c.b, a.n + b.n, "appending makes a new string"); r = h_ok(m, "d.length"); CHECK(mjs_get_double(m, r) == a.n + b.n, "length of a concatenation");
  r = h_ok(m, "c+=b;c.slice(d.length+a.length)"); same(m, r, b.b, b.n, "tail of a concatenation"); vs_reach("end");
}
void H_str_eq(void) {
  struct mjs *m = h_new(); S a, b; int i, x = vs_choose(NSTO, "sto"), y = vs_choose(NSTO, "sto"), eq; sym(&a, 0, 6, "a"); b.n = a.n + vs_choose(2, "dl"); if (b.n) vs_sym(b.b, b.n, "b"); put(m, "a", &a, x, 0); put(m, "b", &b, y, 1);
  eq = a.n == b.n; if (eq) eq = (int) h_bytes_eq(a.b, b.b, a.n);
  mjs_val_t r = h_ok(m, "a===b"); CHECK(mjs_is_boolean(r) && (mjs_get_bool(m, r) != 0) == eq, "=== compares all bytes"); r = h_ok(m, "b===a"); CHECK((mjs_get_bool(m, r) != 0) == eq, "=== is symmetric"); r = h_ok(m, "a!==b"); CHECK((mjs_get_bool(m, r) != 0) == !eq, "!== is the negation of ==="); if (eq) vs_reach("eq"); else vs_reach("ne"); (void) i;
}
void H_str_cmp(void) { /* host comparison */
  struct mjs *m = h_new(); S a, b; int x = vs_choose(2, "sto"), eq, c; sym(&a, 0, 6, "a"); sym(&b, 0, 6, "b"); put(m, "a", &a, x, 0); mjs_val_t v = h_get(m, "a");
  eq = a.n == b.n && h_bytes_eq(a.b, b.b, a.n); c = mjs_strcmp(m, &v, b.b, b.n); CHECK((c == 0) == eq, "mjs_strcmp is zero exactly for equal strings"); if (eq) vs_reach("eq"); else vs_reach("ne");
  { const char *cs; size_t i, l = 0; int nul = 0; for (i = 0; i < (size_t) a.n; i++) nul |= a.b[i] == 0; cs = mjs_get_cstring(m, &v); if (!nul) { CHECK(cs != NULL && cs[a.n] == 0 && h_bytes_eq(cs, a.b, a.n), "a C string has the same bytes"); } else CHECK(cs == NULL, "a string with a NUL is no C string"); (void) l; }
  { char z[8]; memcpy(z, b.b, b.n); z[b.n] = 0; mjs_val_t w = mjs_mk_string(m, z, ~0, 1); int l = 0; while (z[l]) l++; same(m, w, z, l, "length of a C string is found"); }
}
void H_str_find(void) {
  struct mjs *m = h_new(); S h, n; int i, j, f, want = -1, useidx = vs_choose(2, "idx"); sym(&h, 0, 5, "h"); sym(&n, 0, 3, "n"); put(m, "h", &h, vs_choose(2, "sto") ? 4 : 0, 0); put(m, "n", &n, vs_choose(2, "sto"), 1);
  f = 0; if (useidx) { vs_sym(&f, 4, "f"); h_setn(m, "f", f); f = f < 0 ? 0 : f > h.n ? h.n : f; f = vs_conc(f); }
  for (i = h.n - n.n; i >= f; i--) { int e = 1; for (j = 0; j < n.n; j++) e &= h.b[i + j] == n.b[j]; want = e ? i : want; }
  mjs_val_t r = h_ok(m, useidx ? "h.indexOf(n,f)" : "h.indexOf(n)"); CHECK(mjs_is_number(r) && mjs_get_int(m, r) == want, "indexOf finds the first occurrence"); vs_reach("end");
}
void H_str_chr(void) {
  struct mjs *m = h_new(); int n; vs_sym(&n, 4, "n"); h_setn(m, "n", n); mjs_val_t r = h_ok(m, "chr(n)"); char c = (char) n;
  if (n >= 0 && n <= 255) { same(m, r, &c, 1, "chr yields the byte"); r = h_ok(m, "chr(n).at(0)===n"); CHECK(mjs_get_bool(m, r), "at inverts chr"); vs_reach("in"); } else { CHECK(mjs_is_null(r), "chr outside a byte is null"); vs_reach("out"); }
}
/* lengths around every encoding threshold, with the neighbours alive */
static const int LEN[] = {4, 5, 6, 126, 127, 128, 129, 255, 256, 511, 512, 513, 1000, 16382, 16383, 16384};
void H_str_len(void) {
  struct mjs *m = h_new(); int n = LEN[vs_choose(16, "len")], sto = vs_choose(4, "sto"), i; char *b = malloc(n + 1); unsigned char c[4]; vs_sym(c, 4, "c"); for (i = 0; i < n; i++) b[i] = 'a' + i % 23; b[n] = 0; b[0] = c[0]; b[n / 2] = c[1]; b[n - 1] = c[2];
  h_sets(m, "before", "neighbour one", 13);
  if (sto == 0) h_sets(m, "s", b, n); else if (sto == 1) mjs_set(m, mjs_get_global(m), "s", ~0, mjs_mk_string(m, b, n, 0)); else if (sto == 2) { h_sets(m, "p", b, n / 2); h_sets(m, "q", b + n / 2, n - n / 2); h_ok(m, "let s=p+q;"); } else { char *l = malloc(n + 20); for (i = 0; i < 3; i++) ASSUME(c[i] >= 'a' && c[i] <= 'z'); strcpy(l, "let s='"); memcpy(l + 7, b, n); strcpy(l + 7 + n, "';"); h_ok(m, l); free(l); }
  h_sets(m, "after", "neighbour two", 13);
  same(m, h_get(m, "s"), b, n, "a long string has the bytes it was made from"); mjs_val_t r = h_ok(m, "s.length"); CHECK(mjs_get_double(m, r) == n, "length of a long string");
  r = h_ok(m, "s.slice(-1)"); same(m, r, b + n - 1, 1, "last byte"); r = h_ok(m, "s.slice(0,-1)"); same(m, r, b, n - 1, "all but the last byte"); r = h_ok(m, "s===s.slice(0,-1)+s.slice(-1)"); CHECK(mjs_get_bool(m, r), "splitting and joining gives an equal string"); r = h_ok(m, "s===s.slice(0,-1)"); CHECK(!mjs_get_bool(m, r), "a shorter prefix is not equal");
  same(m, h_get(m, "before"), "neighbour one", 13, "neighbours unchanged"); same(m, h_get(m, "after"), "neighbour two", 13, "neighbours unchanged"); same(m, h_get(m, "s"), b, n, "still the same");
  h_ok(m, "gc(true);"); same(m, h_get(m, "s"), b, n, "still the same after a collection"); vs_reach("end");
}
/* doubling: the source lies in the buffer being grown */
void H_str_grow(void) {
  struct mjs *m = h_new(); S s; int k = vs_choose(9, "k"), i, n; char *e; sym(&s, 1, 6, "s"); h_sets(m, "s", s.b, s.n); h_sets(m, "t", s.b, s.n); h_setn(m, "k", k); h_ok(m, "for(let i=0;i<k;i++){s=s+s;}"); n = s.n << k; e = malloc(n); for (i = 0; i < n; i++) e[i] = s.b[i % s.n];
  same(m, h_get(m, "s"), e, n, "doubling a string"); h_ok(m, "let acc='';for(let i=0;i<20;i++){acc=acc+s.slice(0,7);}"); { int l = n < 7 ? n : 7; char *f = malloc(20 * l + 1); for (i = 0; i < 20 * l; i++) f[i] = e[i % l]; same(m, h_get(m, "acc"), f, 20 * l, "appending slices"); free(f); }
  same(m, h_get(m, "s"), e, n, "doubling a string"); same(m, h_get(m, "t"), s.b, s.n, "the original is unchanged"); vs_reach("end");
}
/* host strings: content read at use, never written; equality with other storages */
void H_str_types(void) { /* wrong argument types are errors, not crashes */
  static const char *const src[] = {"s.slice('a')", "s.slice(1,null)", "s.slice()", "s.at()", "s.at('x')", "s.indexOf()", "s.indexOf(1)", "s.indexOf('a','b')", "s.foo()", "let f=s.slice;f(1)", "let o={q:s.at};o.q(0)"};
  struct mjs *m = h_new(); S s; sym(&s, 0, 6, "s"); put(m, "s", &s, vs_choose(2, "sto"), 0); mjs_val_t r; mjs_err_t e = h_run(m, src[vs_choose(11, "t")], &r); CHECK(e != MJS_OK, "wrong arguments are errors"); same(m, h_get(m, "s"), s.b, s.n, "the string is unchanged"); h_idle(m, "idle after an error");
}
