#include "eng.h"
/* ---- C07: objects against a model map ---- */
#ifndef NOPS
#define NOPS 4
#endif
typedef struct { char b[8]; int n; } K;
static int keq(const K *a, const K *b) { return a->n == b->n && h_bytes_eq(a->b, b->b, a->n); }
static void ksym(K *k, const int *lens, int nl, const char *name) { k->n = lens[vs_choose(nl, "len")]; if (k->n) vs_sym(k->b, k->n, name); }
/* reserved names: apply (builtin on every value) and __p (prototype link) */
static void unreserved(const K *k) { if (k->n == 5) ASSUME(!h_bytes_eq(k->b, "apply", 5)); if (k->n == 3) ASSUME(!h_bytes_eq(k->b, "__p", 3)); }
typedef struct { K k[8]; double v[8]; int has[8]; int n; } M; /* model map: unique keys */
static int mfind(M *m, const K *k) { int i; for (i = 0; i < m->n; i++) if (m->has[i] && keq(&m->k[i], k)) return i; return -1; }
static void mset(M *m, const K *k, double v) { int i = mfind(m, k); if (i < 0) { i = m->n++; m->k[i] = *k; m->has[i] = 1; } m->v[i] = v; }
static void mcheck(struct mjs *mj, mjs_val_t o, M *m, K *ks, int nk) {
  int i, cnt = 0; mjs_val_t it = MJS_UNDEFINED, key; int seen[8] = {0};
  for (i = 0; i < nk; i++) { int j = mfind(m, &ks[i]); mjs_val_t v = mjs_get(mj, o, ks[i].b, ks[i].n); if (j < 0) CHECK(mjs_is_undefined(v), "an absent property reads as undefined"); else CHECK(mjs_is_number(v) && mjs_get_double(mj, v) == m->v[j], "a property holds the last value set"); }
  while ((key = mjs_next(mj, o, &it)) != MJS_UNDEFINED && cnt <= 8) { K q; size_t l; const char *s = mjs_get_string(mj, &key, &l); cnt++; CHECK(l <= 8, "enumerated names are present names"); q.n = (int) l; memcpy(q.b, s, l); i = mfind(m, &q); CHECK(i >= 0, "enumerated names are present names"); if (i >= 0) seen[i]++; }
  for (i = 0; i < m->n; i++) CHECK(seen[i] == (m->has[i] ? 1 : 0), "every present name is enumerated once");
}
void H_obj_hist(void) {
  static const int LN[][3] = {{1, 1, 1}, {6, 6, 6}, {0, 5, 5}}; struct mjs *mj = h_new(); K k[3]; M m; int i, ln = vs_choose(3, "lens"); char kn[2] = "0"; char src[64]; memset(&m, 0, sizeof m);
  for (i = 0; i < 3; i++) { ksym(&k[i], &LN[ln][i], 1, "key"); unreserved(&k[i]); kn[0] = '0' + i; strcpy(src, "k"); strcat(src, kn); h_sets(mj, src, k[i].b, k[i].n); }
  h_ok(mj, "let o={};let other={};"); mjs_val_t o = h_get(mj, "o"), other = h_get(mj, "other"); mjs_set(mj, other, k[0].b, k[0].n, mjs_mk_number(mj, 77));
  for (i = 0; i < NOPS; i++) {
    int op = vs_choose(4, "op"), x = vs_choose(3, "k"), j; mjs_err_t e;
    switch (op) {
      case 0: e = mjs_set(mj, o, k[x].b, k[x].n, mjs_mk_number(mj, i + 1)); CHECK(e == MJS_OK, "set succeeds"); mset(&m, &k[x], i + 1); break;
      case 1: { char t[] = "o[k0]=10;"; t[3] = '0' + x; t[6] = '1' + i; h_ok(mj, t); mset(&m, &k[x], (i + 1) * 10); break; }
      case 2: j = mfind(&m, &k[x]); CHECK(mjs_del(mj, o, k[x].b, k[x].n) == (j < 0 ? -1 : 0), "delete tells whether the property existed"); if (j >= 0) m.has[j] = 0; break;
      default: { char t[] = "o[k0]"; t[3] = '0' + x; mjs_val_t v = h_ok(mj, t); j = mfind(&m, &k[x]); if (j < 0) CHECK(mjs_is_undefined(v), "script: an absent property reads as undefined"); else CHECK(mjs_is_number(v) && mjs_get_double(mj, v) == m.v[j], "script: a property holds the last value set"); }
    }
  }
  mcheck(mj, o, &m, k, 3); { mjs_val_t v = mjs_get(mj, other, k[0].b, k[0].n); CHECK(mjs_is_number(v) && mjs_get_double(mj, v) == 77, "other objects are unaffected"); } vs_reach("end");
}
/* two keys of any bytes, every way of writing and reading */
void H_obj_keys(void) {
  static const int lens[] = {0, 1, 2, 3, 4, 5, 6, 7}; struct mjs *m = h_new(); K a, b; int w = vs_choose(3, "w"), r = vs_choose(3, "r"), f = vs_choose(2, "foreign"); static char fb[16]; ksym(&a, lens, 8, "a"); unreserved(&a); b.n = a.n + (a.n < 7 ? vs_choose(2, "dl") : 0); if (b.n) vs_sym(b.b, b.n, "b"); unreserved(&b);
  if (f) { memcpy(fb, a.b, a.n); mjs_set(m, mjs_get_global(m), "ka", ~0, mjs_mk_string(m, fb, a.n, 0)); } else h_sets(m, "ka", a.b, a.n); h_sets(m, "kb", b.b, b.n); h_ok(m, "let o={};"); mjs_val_t o = h_get(m, "o"), v;
  if (w == 0) h_ok(m, "o[ka]=1;"); else if (w == 1) mjs_set(m, o, a.b, a.n, mjs_mk_number(m, 1)); else mjs_set_v(m, o, h_get(m, "ka"), mjs_mk_number(m, 1));
  if (f) memset(fb, 'z', 16); /* the name was copied */
  v = r == 0 ? h_ok(m, "o[kb]") : r == 1 ? mjs_get(m, o, b.b, b.n) : mjs_get_v(m, o, h_get(m, "kb"));
  if (f && (w != 1) && a.n > 5) return; /* a long host string stays in host memory by design */
  if (keq(&a, &b)) { CHECK(mjs_is_number(v) && mjs_get_double(m, v) == 1, "a name finds the property set under the same bytes"); vs_reach("same"); } else { CHECK(mjs_is_undefined(v), "a name does not find a property set under other bytes"); vs_reach("differ"); }
  h_ok(m, "o[kb]=2;"); v = mjs_get(m, o, a.b, a.n); CHECK(mjs_get_double(m, v) == (keq(&a, &b) ? 2 : 1), "setting one name leaves the others");
}
/* identifiers, quoted names, numbers and computed names address the same map */
void H_obj_names(void) {
  static const char *const wr[] = {"let o={abc:v};", "let o={'abc':v};", "let o={};o.abc=v;", "let o={};o['abc']=v;", "let k='ab'+'c';let o={};o[k]=v;", "let o={x:1,abc:v,y:2};", "let o=JSON.parse('{\"abc\":0}');o.abc=v;"};
  static const char *const rd[] = {"o.abc", "o['abc']", "o['a'+'bc']", "let q='abc';o[q]"}; struct mjs *m = h_new(); double v; vs_sym(&v, 8, "v"); h_setn(m, "v", v); h_ok(m, wr[vs_choose(7, "w")]); mjs_val_t r = h_ok(m, rd[vs_choose(4, "r")]); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), v), "all ways of naming a property are equivalent"); r = h_ok(m, "o.ab"); CHECK(mjs_is_undefined(r), "a prefix is another name"); r = h_ok(m, "o.abcd"); CHECK(mjs_is_undefined(r), "a longer name is another name"); r = h_ok(m, "o.Abc"); CHECK(mjs_is_undefined(r), "names are case sensitive");
  { int n = vs_choose(256, "n"); h_setn(m, "n", n * 37); h_ok(m, "let p={};p[n]=v;"); r = h_ok(m, "p[''+JSON.stringify(n)]"); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), v), "a number as name is its decimal text"); h_ok(m, "for(let s in p){n=s;}"); r = h_ok(m, "typeof n"); CHECK(h_streq(m, r, "string", 6), "enumeration yields strings"); }
}
/* prototype chains */
void H_obj_proto(void) {
  struct mjs *m = h_new(); K k; static const int lens[] = {1, 6}; int h0 = vs_choose(2, "h"), h1 = vs_choose(2, "h"), h2 = vs_choose(2, "h"), want; ksym(&k, lens, 2, "k"); h_sets(m, "k", k.b, k.n); h_ok(m, "let p={};let q=Object.create(p);let r=Object.create(q);");
  if (h0) h_ok(m, "p[k]=1;"); if (h1) h_ok(m, "q[k]=2;"); if (h2) h_ok(m, "r[k]=3;"); mjs_val_t v = h_ok(m, "r[k]"); want = h2 ? 3 : h1 ? 2 : h0 ? 1 : 0;
  if (want) CHECK(mjs_is_number(v) && mjs_get_double(m, v) == want, "lookup finds the nearest definition"); else CHECK(mjs_is_undefined(v), "lookup misses");
  v = h_ok(m, "q[k]"); want = h1 ? 2 : h0 ? 1 : 0; if (want) CHECK(mjs_is_number(v) && mjs_get_double(m, v) == want, "lookup from the middle"); else CHECK(mjs_is_undefined(v), "lookup misses");
  h_ok(m, "r[k]=9;r.other=1;"); v = h_ok(m, "r[k]"); CHECK(mjs_get_double(m, v) == 9, "a write is seen by the object"); v = h_ok(m, "q[k]"); if (want) CHECK(mjs_get_double(m, v) == want, "a write does not change the prototype"); else CHECK(mjs_is_undefined(v), "a write does not change the prototype"); v = h_ok(m, "p[k]"); if (h0) CHECK(mjs_get_double(m, v) == 1, "a write does not change the prototype"); else CHECK(mjs_is_undefined(v), "a write does not change the prototype");
  v = h_ok(m, "p.other===undefined&&q.other===undefined"); CHECK(mjs_get_bool(m, v), "other names neither"); h_ok(m, "p.late=5;"); v = h_ok(m, "r.late"); CHECK(mjs_get_double(m, v) == 5, "later additions to a prototype are seen"); vs_reach("end");
}
/* methods of prototypes get the right `this` */
void H_obj_method(void) {
  struct mjs *m = h_new(); double a, b; vs_sym(&a, 8, "a"); vs_sym(&b, 8, "b"); h_setn(m, "a", a); h_setn(m, "b", b); h_ok(m, "let P={get:function(){return this.v;},set:function(x){this.v=x;return this;}};let x=Object.create(P);let y=Object.create(P);x.set(a);y.set(b);"); 
  mjs_val_t r = h_ok(m, "x.get()"); CHECK(h_same(mjs_get_double(m, r), a), "a method sees its object"); r = h_ok(m, "y.get()"); CHECK(h_same(mjs_get_double(m, r), b), "a method sees its object"); r = h_ok(m, "P.v"); CHECK(mjs_is_undefined(r), "the prototype is unchanged"); r = h_ok(m, "x.set(b).get()"); CHECK(h_same(mjs_get_double(m, r), b), "chained method calls");
}
/* enumeration from scripts: nested, with break, empty, and after deletion */
void H_obj_forin(void) {
  struct mjs *m = h_new(); int n = vs_choose(6, "n"), d = vs_choose(7, "d"), i, cnt = 0; char t[] = "kX"; h_ok(m, "let o={};"); mjs_val_t o = h_get(m, "o"), r; unsigned char c; vs_sym(&c, 1, "c"); for (i = 0; i < n; i++) { t[0] = (char) c; t[1] = 'a' + i; mjs_set(m, o, t, 2, mjs_mk_number(m, 1 << i)); }
  if (d < n) { t[0] = (char) c; t[1] = 'a' + d; mjs_del(m, o, t, 2); } for (i = 0; i < n; i++) if (i != d) cnt += 1 << i;
  r = h_ok(m, "let s=0;let l=0;for(let k in o){s+=o[k];l+=k.length;}s"); CHECK(mjs_get_double(m, r) == cnt, "for-in visits every property once"); r = h_ok(m, "l"); CHECK(mjs_get_double(m, r) == 2 * (n - (d < n)), "for-in yields the names");
  r = h_ok(m, "s=0;for(let k in o){for(let j in o){s+=o[j];}}s"); CHECK(mjs_get_double(m, r) == (double) cnt * (n - (d < n)), "nested for-in"); r = h_ok(m, "s=0;for(let k in o){s++;break;}s"); CHECK(mjs_get_double(m, r) == (cnt ? 1 : 0), "break leaves for-in"); r = h_ok(m, "s=0;for(let k in o){if(o[k]===1){continue;}s+=o[k];}s"); CHECK(mjs_get_double(m, r) == (cnt & ~1), "continue in for-in"); h_idle(m, "idle");
}
/* many properties: arena growth */
void H_obj_many(void) {
  struct mjs *m = h_new(); int n = 40 + 60 * vs_choose(4, "n"), i, del = 2 + vs_choose(3, "del"); double x; vs_sym(&x, 8, "x"); h_ok(m, "let o={};"); mjs_val_t o = h_get(m, "o"), v; char t[16];
  for (i = 0; i < n; i++) { int l = 0, y = i; strcpy(t, i % 2 ? "k" : "longname"); l = strlen(t); t[l++] = 'a' + y % 26; t[l++] = 'a' + y / 26; mjs_set(m, o, t, l, i == n / 2 ? mjs_mk_number(m, x) : mjs_mk_number(m, i)); }
  for (i = 0; i < n; i += del) { int l; strcpy(t, i % 2 ? "k" : "longname"); l = strlen(t); t[l++] = 'a' + i % 26; t[l++] = 'a' + i / 26; CHECK(mjs_del(m, o, t, l) == 0, "deleting one of many"); }
  mjs_gc(m, vs_choose(2, "full"));
  for (i = 0; i < n; i++) { int l; strcpy(t, i % 2 ? "k" : "longname"); l = strlen(t); t[l++] = 'a' + i % 26; t[l++] = 'a' + i / 26; v = mjs_get(m, o, t, l); if (i % del == 0) CHECK(mjs_is_undefined(v), "one of many: deleted"); else CHECK(mjs_is_number(v) && h_same(mjs_get_double(m, v), i == n / 2 ? x : (double) i), "one of many: value kept"); }
  vs_reach("end");
}
/* access to non-objects is an error; identity of references */
void H_obj_misc(void) {
  static const char *const bad[] = {"x.a", "x.a=1", "null.a", "undefined['a']", "true.a=1", "let f=function(){};f.a", "for(let k in x){}", "Object.create(x)", "Object.create()", "null.a=1"}; struct mjs *m = h_new(); double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x); size_t l0; mjs_val_t r; mjs_err_t e;
  int t = vs_choose(11, "t"); if (t < 10) { e = h_run(m, bad[t], &r); l0 = vs_live(); e = h_run(m, bad[t], &r); CHECK(e == MJS_TYPE_ERROR || e == MJS_BAD_ARGS_ERROR, "properties of non-objects are errors"); h_idle(m, "idle after an error"); (void) l0; }
  r = h_ok(m, "let a={v:1};let b=a;b.v=x;a.v"); CHECK(h_same(mjs_get_double(m, r), x), "references share the object"); r = h_ok(m, "let c={v:1};c.self=c;c.self.self.v=x;c.v"); CHECK(h_same(mjs_get_double(m, r), x), "self reference"); r = h_ok(m, "a===b"); CHECK(mjs_get_bool(m, r), "identity"); r = h_ok(m, "a==={v:1}"); CHECK(!mjs_get_bool(m, r), "distinct objects differ"); r = h_ok(m, "let w={p:{q:{r:1}}};w.p.q.r=x;w.p.s=2;w.p.q.r"); CHECK(h_same(mjs_get_double(m, r), x), "nested objects");
}
/* ---- C08: arrays against a model sequence ---- */
typedef struct { double v[24]; int has[24]; } A;
static int alen(A *a) { int i, n = 0; for (i = 0; i < 24; i++) if (a->has[i]) n = i + 1; return n; }
static void acheck(struct mjs *m, const char *name, mjs_val_t arr, A *a, const char *what) {
  int i, n = alen(a); char src[24]; CHECK(mjs_is_array(arr), what); CHECK(mjs_array_length(m, arr) == (unsigned long) n, "length is one more than the largest index set"); strcpy(src, name); strcat(src, ".length"); mjs_val_t r = h_ok(m, src); CHECK(mjs_get_double(m, r) == n, "length is one more than the largest index set");
  for (i = 0; i < n + 2; i++) { mjs_val_t v = mjs_array_get(m, arr, i); if (i < 24 && a->has[i]) CHECK(mjs_is_number(v) && h_same(mjs_get_double(m, v), a->v[i]), what); else CHECK(mjs_is_undefined(v), "elements not set read as undefined"); }
}
static void asplice(A *a, int start, int cnt, int nnew, const double *nv, A *ret) {
  A o = *a; int i, n = alen(a); memset(ret, 0, sizeof *ret); for (i = 0; i < cnt; i++) { ret->has[i] = 1; ret->v[i] = o.v[start + i]; }
  memset(a, 0, sizeof *a); for (i = 0; i < start; i++) { a->has[i] = o.has[i]; a->v[i] = o.v[i]; } for (i = 0; i < nnew; i++) { a->has[start + i] = 1; a->v[start + i] = nv[i]; } for (i = start + cnt; i < n; i++) { a->has[i - cnt + nnew] = o.has[i]; a->v[i - cnt + nnew] = o.v[i]; }
}
/* an argument in -n..n case by case, or any 32-bit value above or below */
static int32_t argsym(int n, const char *name) { int32_t s; int c = vs_choose(3, "class"); vs_sym(&s, 4, name); if (c == 0) { ASSUME(s >= -n && s <= n); s = (int32_t) vs_conc((uint32_t) s); } else if (c == 1) ASSUME(s > n); else ASSUME(s < -n); return s; }
static int norm(long x, int n) { if (x < 0) x += n; return x < 0 ? 0 : x > n ? n : (int) x; }
#ifndef NS
#define NS 6
#endif
void H_arr_splice(void) {
  struct mjs *m = h_new(); A a, ret; int n = vs_choose(NS, "n"), nn = vs_choose(4, "new"), i, st, cnt; int32_t s, c; double x, nv[3] = {501, 502, 503}; memset(&a, 0, sizeof a); vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_ok(m, "let a=[];let z=[7,8];"); mjs_val_t arr = h_get(m, "a");
  for (i = 0; i < n; i++) { a.has[i] = 1; a.v[i] = i == 1 ? x : 100 + i; mjs_array_push(m, arr, mjs_mk_number(m, a.v[i])); } s = argsym(n, "s"); h_setn(m, "s", s); st = vs_conc(norm(s, n));
  static const char *const call[] = {"let r=a.splice(s,c);r", "let r=a.splice(s,c,501);r", "let r=a.splice(s,c,501,502);r", "let r=a.splice(s,c,501,502,503);r"};
  mjs_val_t r; if (nn == 0 && vs_choose(2, "one")) { cnt = n - st; r = h_ok(m, "let r=a.splice(s);r"); } else { c = argsym(n, "c"); h_setn(m, "c", c); cnt = vs_conc(c < 0 ? 0 : c > n - st ? n - st : c); r = h_ok(m, call[nn]); }
  asplice(&a, st, cnt, nn, nv, &ret); acheck(m, "a", arr, &a, "splice leaves the right elements"); acheck(m, "r", r, &ret, "splice returns the removed elements"); r = h_ok(m, "z.length===2&&z[0]===7&&z[1]===8"); CHECK(mjs_get_bool(m, r), "other arrays are unaffected"); h_idle(m, "idle"); vs_reach("end");
}
void H_arr_hist(void) {
  struct mjs *m = h_new(); A a, ret; int i, j, st, cnt, len; double x; memset(&a, 0, sizeof a); vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_ok(m, "let a=[5,6];let b=[1,2,3];let i=0;"); a.has[0] = a.has[1] = 1; a.v[0] = 5; a.v[1] = 6; mjs_val_t arr = h_get(m, "a"), r;
  for (i = 0; i < NOPS; i++) {
    int op = vs_choose(7, "op"); double v = 10 * (i + 1), nv[1]; char t[40]; len = alen(&a);
    switch (op) {
      case 0: r = h_ok(m, "a.push(x)"); a.has[len] = 1; a.v[len] = x; CHECK(mjs_get_double(m, r) == len + 1, "push returns the new length"); break;
      case 1: mjs_array_push(m, arr, mjs_mk_number(m, v)); a.has[len] = 1; a.v[len] = v; break;
      case 2: j = vs_choose(5, "i"); h_setn(m, "i", j); h_setn(m, "v", v); h_ok(m, "a[i]=v;"); a.has[j] = 1; a.v[j] = v; break;
      case 3: j = vs_choose(5, "i"); mjs_array_del(m, arr, j); a.has[j] = 0; break;
      case 4: j = vs_choose(5, "i"); CHECK(mjs_array_set(m, arr, j, mjs_mk_number(m, v)) == MJS_OK, "set succeeds"); a.has[j] = 1; a.v[j] = v; break;
      case 5: st = vs_choose(4, "st"); cnt = vs_choose(3, "cnt"); h_setn(m, "s", st); h_setn(m, "c", cnt); if (st > len) st = len; if (cnt > len - st) cnt = len - st; nv[0] = x; h_ok(m, "a.splice(s,c,x);"); for (j = 0; j < len; j++) if (!a.has[j]) break; if (j < len) return; /* splice of sparse arrays: not claimed */ asplice(&a, st, cnt, 1, nv, &ret); break;
      default: h_ok(m, "a.push(x,1,2);"); for (j = 0; j < 3; j++) a.has[len + j] = 1; a.v[len] = x; a.v[len + 1] = 1; a.v[len + 2] = 2;
    }
  }
  acheck(m, "a", arr, &a, "an array holds the last values set"); r = h_ok(m, "b.length===3&&b[0]===1&&b[1]===2&&b[2]===3"); CHECK(mjs_get_bool(m, r), "other arrays are unaffected"); vs_reach("end");
}
static const double IX[] = {0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 1000000, 2147483647, 2147483648.0, 4294967293.0};
void H_arr_index(void) {
  struct mjs *m = h_new(); double x, i = IX[vs_choose(14, "i")]; vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_setn(m, "i", i); mjs_val_t r; h_ok(m, "let a=[];let b=[4];a[i]=x;"); r = h_ok(m, "a[i]"); CHECK(h_same(mjs_get_double(m, r), x), "any index"); r = h_ok(m, "a.length"); CHECK(mjs_get_double(m, r) == i + 1, "length after setting any index"); r = mjs_array_get(m, h_get(m, "a"), (unsigned long) i); CHECK(h_same(mjs_get_double(m, r), x), "host and script indices agree"); if (i > 0) { r = h_ok(m, "a[i-1]"); CHECK(mjs_is_undefined(r), "the element before is not set"); } r = h_ok(m, "a[i+1]"); CHECK(mjs_is_undefined(r), "the element after is not set"); h_ok(m, "a.name=3;"); r = h_ok(m, "a.length"); CHECK(mjs_get_double(m, r) == i + 1, "named properties do not change the length"); r = h_ok(m, "a.name"); CHECK(mjs_get_double(m, r) == 3, "named properties"); r = h_ok(m, "b.length===1&&b[0]===4"); CHECK(mjs_get_bool(m, r), "other arrays are unaffected"); mjs_array_set(m, h_get(m, "b"), (unsigned long) i, mjs_mk_number(m, x)); r = h_ok(m, "b[i]"); CHECK(h_same(mjs_get_double(m, r), x), "host and script indices agree"); vs_reach("end");
}
void H_arr_lit(void) {
  static const char *const src[] = {"let a=[x,1,2];", "let a=[];a[0]=x;a[1]=1;a[2]=2;", "let a=[];a.push(x);a.push(1);a.push(2);", "let a=[x];a.push(1,2);", "let a=[0,0,0];a[2]=2;a[0]=x;a[1]=1;", "let f=function(p,q,r){return [p,q,r];};let a=f(x,1,2);", "let o={l:[0,[x,1,2]]};let a=o.l[1];", "let a=[2];a.splice(0,0,x,1);", "let a=[9,x,1,2,8];a.splice(0,1);a.splice(3,1);"}; struct mjs *m = h_new(); double x; A a; memset(&a, 0, sizeof a); vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_ok(m, src[vs_choose(9, "t")]); a.has[0] = a.has[1] = a.has[2] = 1; a.v[0] = x; a.v[1] = 1; a.v[2] = 2; acheck(m, "a", h_get(m, "a"), &a, "array construction"); mjs_val_t r = h_ok(m, "let s='';for(let k in a){s=s+k;}s.length"); CHECK(mjs_get_double(m, r) == 3, "enumeration of indices"); r = h_ok(m, "a['1']"); CHECK(mjs_get_double(m, r) == 1, "an index may be a string"); r = h_ok(m, "a[1]=[a];a[1][0]===a"); CHECK(mjs_get_bool(m, r), "arrays hold references");
}
void H_arr_many(void) { /* many elements */
  struct mjs *m = h_new(); int n = 10 + 45 * vs_choose(4, "n"), i; double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_setn(m, "n", n); h_ok(m, "let a=[];for(let i=0;i<n;i++){a.push(i);}a[5]=x;"); mjs_val_t r = h_ok(m, "a.length"), arr = h_get(m, "a"); CHECK(mjs_get_double(m, r) == n, "many pushes"); for (i = 0; i < n; i++) { mjs_val_t v = mjs_array_get(m, arr, i); CHECK(mjs_is_number(v) && h_same(mjs_get_double(m, v), i == 5 ? x : i), "many elements"); }
}
void H_arr_bad(void) { static const char *const bad[] = {"a.splice()", "a.splice('x')", "a.splice(0,'x')", "let f=a.push;f(1)", "let f=a.splice;f(0,1)", "a.foo()"}; struct mjs *m = h_new(); double x; vs_sym(&x, 8, "x"); h_setn(m, "x", x); h_ok(m, "let a=[x,2];"); mjs_val_t r; CHECK(h_run(m, bad[vs_choose(6, "t")], &r) != MJS_OK, "wrong arguments are errors"); r = h_ok(m, "a.length"); CHECK(mjs_get_double(m, r) == 2, "the array is unchanged"); h_idle(m, "idle"); }
