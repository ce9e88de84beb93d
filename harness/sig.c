#include "eng.h"
/* C14: the text of a foreign signature */
typedef struct { int ret, n, ty[8], cb, cret, cn, cty[8]; const char *name; int nlen; } ref_t;
static char looked[200]; static int nlook; static void *found = (void *) 0x1234;
static void *resolver(void *h, const char *name) { int i; (void) h; nlook++; for (i = 0; i < 199 && name[i]; i++) looked[i] = name[i]; looked[i] = 0; return i ? found : NULL; }
static const struct { const char *s; int t; } TT[] = { { "void", MJS_FFI_CTYPE_NONE }, { "int", MJS_FFI_CTYPE_INT }, { "bool", MJS_FFI_CTYPE_BOOL }, { "double", MJS_FFI_CTYPE_DOUBLE }, { "float", MJS_FFI_CTYPE_FLOAT }, { "char*", MJS_FFI_CTYPE_CHAR_PTR }, { "char *", MJS_FFI_CTYPE_CHAR_PTR }, { "void*", MJS_FFI_CTYPE_VOID_PTR }, { "void *", MJS_FFI_CTYPE_VOID_PTR }, { "struct mg_str*", MJS_FFI_CTYPE_STRUCT_MG_STR_PTR }, { "struct mg_str *", MJS_FFI_CTYPE_STRUCT_MG_STR_PTR }, { "userdata", MJS_FFI_CTYPE_USERDATA } };
#define NTT ((int) (sizeof TT / sizeof TT[0]))
#define CBT MJS_FFI_CTYPE_CALLBACK
/* ---- reference reading of the documented forms: 1 = the text is one of them, and what it declares; loose = apart from text after the declaration, unusual text around the name of a callback, or void as the last of several parameters, which the engine may ignore or reject */
static int loose;
static int ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int wordch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static int ref_type(const char *s, const char *e) { int k; while (s < e && ws(*s)) s++; while (e > s && ws(e[-1])) e--; for (k = 0; k < NTT; k++) if ((int) strlen(TT[k].s) == e - s && !memcmp(TT[k].s, s, e - s)) return TT[k].t; return -1; }
static const char *ref_close(const char *s, const char *e) { int l = 1; for (; s < e; s++) if (*s == '(') l++; else if (*s == ')' && --l == 0) return s; return NULL; }
static int ref_sig(const char *s, const char *e, ref_t *o, int cb) {
  const char *p, *q, *a; int n = 0, ud = 0, cbs = 0, dbl = 0, flt = 0, ty[8], r; while (s < e && ws(*s)) s++;
  for (p = s; p < e && *p != '('; p++) {} if (p >= e) return 0; q = ref_close(p + 1, e); if (!q) return 0;
  if (!cb) { const char *t = p, *u; while (t > s && ws(t[-1])) t--; for (u = t; u > s && wordch(u[-1]); u--) {} if (u == t || t - u > 99) return 0; o->name = u; o->nlen = t - u; r = ref_type(s, u); if (r < 0 || r == MJS_FFI_CTYPE_USERDATA || r == MJS_FFI_CTYPE_STRUCT_MG_STR_PTR) return 0; }
  else { r = ref_type(s, p); for (a = p + 1; a < q; a++) if (!wordch(*a) && *a != '*' && *a != ' ') loose = 1; for (p = q + 1; p < e && *p != '('; p++) if (!ws(*p)) loose = 1; if (p >= e) return 0; q = ref_close(p + 1, e); if (!q) return 0; if (r != MJS_FFI_CTYPE_NONE && r != MJS_FFI_CTYPE_INT && r != MJS_FFI_CTYPE_BOOL) return 0; }
  for (a = q + 1; a < e; a++) if (*a == '(' && !cb) return 0; else if (!ws(*a)) loose = 1;
  if (q > p + 1) for (a = p + 1; a <= q;) { const char *b = a; int lvl = 0, t, fp = 0; while (b < q && (lvl > 0 || *b != ',')) { if (*b == '(') { lvl++; fp = 1; } if (*b == ')') lvl--; b++; }
    if (fp) { ref_t c; if (cb || cbs++) return 0; if (!ref_sig(a, b, &c, 1)) return 0; o->cret = c.ret; o->cn = c.n; { int k; for (k = 0; k < c.n; k++) o->cty[k] = c.ty[k]; } t = CBT; } else t = ref_type(a, b);
    if (t < 0) return 0; if (t == MJS_FFI_CTYPE_NONE) { if (b < q) return 0; if (n) loose = 1; break; } if (n == 6) return 0; ud += t == MJS_FFI_CTYPE_USERDATA; dbl += t == MJS_FFI_CTYPE_DOUBLE; flt += t == MJS_FFI_CTYPE_FLOAT; ty[n++] = t; a = b + 1; }
  if (cb ? ud != 1 || flt || dbl > 1 || (dbl && n != 2) : ud != cbs) return 0;
  o->ret = r; o->n = n; o->cb = cbs; { int k; for (k = 0; k < n; k++) o->ty[k] = ty[k]; } return 1; }
static void same(const struct mjs_ffi_sig *g, const ref_t *o) { int i; CHECK(g->val_types[0] == o->ret, "return type"); CHECK(g->args_cnt == o->n, "number of parameters"); for (i = 0; i < o->n; i++) CHECK(g->val_types[i + 1] == o->ty[i], "parameter type"); CHECK((g->cb_sig != NULL) == o->cb, "callback present"); if (o->cb) { CHECK(g->cb_sig->val_types[0] == o->cret && g->cb_sig->args_cnt == o->cn, "callback declaration"); for (i = 0; i < o->cn; i++) CHECK(g->cb_sig->val_types[i + 1] == o->cty[i], "callback parameter type"); } CHECK((void *) g->fn == found, "resolved function"); CHECK(nlook == 1, "one lookup"); for (i = 0; i < o->nlen; i++) CHECK(looked[i] == o->name[i], "name"); CHECK(looked[o->nlen] == 0, "name length"); }
/* the engine's reading of an exactly sized text against the reference */
static void direct(const char *s, int n) {
  size_t l0 = vs_live(); struct mjs *m = h_new(); char *t = (char *) malloc(n + 1); mjs_val_t v = MJS_UNDEFINED; mjs_err_t e; ref_t o; int ok; memcpy(t, s, n); t[n] = 0; memset(&o, 0, sizeof o); loose = 0; ok = ref_sig(t, t + n, &o, 0); nlook = 0; mjs_set_ffi_resolver(m, resolver);
  mjs_set(m, mjs_get_global(m), "s", 1, mjs_mk_string(m, t, n, 0)); e = h_run(m, "ffi(s)", &v); if (ok && (!loose || e == MJS_OK)) { vs_reach("accepted"); CHECK(e == MJS_OK && mjs_is_ffi_sig(v), "a documented signature is accepted"); same(mjs_get_ffi_sig_struct(v), &o); } else { vs_reach("other"); CHECK(e != MJS_OK, "anything else is an error"); }
  if (e != MJS_OK) CHECK(mjs_strerror(m, e) != NULL && mjs_strerror(m, e)[0] != 0, "an error has a message"); h_idle(m, "idle"); mjs_destroy(m); free(t); CHECK(vs_live() == l0, "no leak"); }
#ifndef SMAX
#define SMAX 5
#endif
void H_sig_bytes(void) { char b[16]; int n = vs_choose(SMAX + 1, "n"); vs_sym(b, sizeof b, "b"); direct(b, n); }
static const char *const TPL[] = { "int f(int, double)", "void timer(int,void(*)(int,userdata),userdata)", "char *g_1(struct mg_str *,char*, void *)", "bool q(void)", "double sin (double )", "float z(float,float)", "void*h(userdata,bool (*cb)(double, userdata),int,int,int,bool)", "int f()", "void e(int (*)(int,bool,char *,void *,struct mg_str *,userdata), userdata)" };
#define NTPL 9
#ifndef NMUT
#define NMUT 1
#endif
/* one byte replaced, removed or inserted at every place of valid signatures; every byte value */
static void mutate(char *b, int *pn) { int n = *pn, p = vs_choose(n + 1, "pos"), k = vs_choose(3, "kind"), i; char c; vs_sym(&c, 1, "c"); if (k == 0) { if (p == n) vs_exit(); b[p] = c; } else if (k == 1) { if (p == n) vs_exit(); for (i = p; i + 1 < n; i++) b[i] = b[i + 1]; n--; } else { for (i = n; i > p; i--) b[i] = b[i - 1]; b[p] = c; n++; } *pn = n; }
void H_sig_mut(void) { char b[128]; const char *t = TPL[vs_choose(NTPL, "template")]; int n = strlen(t), k; memcpy(b, t, n); for (k = 0; k < NMUT; k++) mutate(b, &n); direct(b, n); }
void H_sig_trunc(void) { const char *t = TPL[vs_choose(NTPL, "template")]; int n = strlen(t), a = vs_choose(n + 1, "from"), k = vs_choose(n - a + 1, "len"); direct(t + a, k); }
/* a script importing a declaration built from parts */
static const char *const SP[] = { "", " ", "  ", "\t", "\n " };
static void put(char *s, const char *t) { strcat(s, t); }
void H_sig_ast(void) {
  static const int PT[] = { 1, 2, 3, 4, 6, 8, 10, 5, 7, 9 }; struct mjs *m = h_new(); char s[400] = "", nm[4], inner[200]; int sp = vs_choose(5, "space"), n = vs_choose(7, "n"), cbp = n >= 2 ? vs_choose(n + 1, "callback") : 0, r = cbp ? (sp + n) % 9 : vs_choose(9, "ret"), udp = -1, i, cn = 0, cr = 0, cud = 0; ref_t o; mjs_val_t v; (void) inner;
  memset(&o, 0, sizeof o); vs_sym(nm, 3, "name"); for (i = 0; i < 3; i++) vs_assume((nm[i] >= 'a' && nm[i] <= 'z') | (nm[i] >= 'A' && nm[i] <= 'Z') | (nm[i] >= '0' && nm[i] <= '9') | (nm[i] == '_')); nm[3] = 0;
  put(s, SP[sp]); put(s, TT[r].s); o.ret = TT[r].t; put(s, sp ? SP[sp] : " "); { int l = strlen(s); memcpy(s + l, nm, 4); } put(s, SP[sp]); put(s, "("); if (cbp) udp = (cbp - 1 + 1 + vs_choose(n - 1, "ud")) % n;
  for (i = 0; i < n; i++) { int j; if (i) put(s, ","); if (!(cbp && i == cbp - 1)) put(s, SP[sp]); if (cbp && i == cbp - 1) { static const char *const R[] = { "void", "int", "bool" }; static const int RV[] = { 0, 1, 2 }; cr = vs_choose(3, "cret"); (void) RV; o.cb = 1; o.ty[i] = CBT; o.cret = TT[cr].t; put(s, SP[sp]); put(s, R[cr]); put(s, SP[sp]); put(s, vs_choose(2, "cbname") ? "(*cb)" : "(*)"); put(s, SP[sp]); put(s, "("); cn = 1 + vs_choose(n > 3 ? 3 : 6, "cn"); cud = vs_choose(cn, "cud"); o.cn = cn;
      for (j = 0; j < cn; j++) { int k = j == cud ? 11 : PT[(j * 3 + sp) % 10]; if (TT[k].t == MJS_FFI_CTYPE_DOUBLE || TT[k].t == MJS_FFI_CTYPE_FLOAT) k = 1; if (cn == 2 && j != cud && sp == 1) k = 3; if (j) put(s, ","); put(s, SP[sp]); put(s, TT[k].s); put(s, SP[sp]); o.cty[j] = TT[k].t; } put(s, ")"); }
    else { int k = i == udp ? 11 : PT[i < 2 && !cbp && (i == 0 || r < 2) ? vs_choose(10, "ty") : (i * 4 + n + r) % 10]; put(s, TT[k].s); o.ty[i] = TT[k].t; } put(s, SP[sp]); }
  o.n = n; o.name = nm; o.nlen = 3; put(s, ")"); put(s, SP[sp]); h_sets(m, "s", s, strlen(s)); mjs_set_ffi_resolver(m, resolver); nlook = 0; v = h_ok(m, "ffi(s)"); CHECK(mjs_is_ffi_sig(v), "a foreign function"); same(mjs_get_ffi_sig_struct(v), &o); vs_reach("end"); }
/* declarations outside the documented forms are errors, whatever the unknown word is */
void H_sig_reject(void) {
  struct mjs *m = h_new(); char s[200] = "", w[8]; int k = vs_choose(20, "kind"), n = 1 + vs_choose(7, "len"), i; mjs_val_t v; size_t l; static const char *const bad[] = { "int f(int,int,int,int,int,int,int)", "void f(void (*)(userdata),void (*)(userdata),userdata)", "void f(void (*)(userdata),int)", "void f(int,userdata)", "void f(void (*)(userdata),userdata,userdata)", "void f(void (*)(userdata,userdata),userdata)", "void f(void (*)(int),userdata)", "void f(void (*)(void (*)(userdata),userdata),userdata)", "void (*f)(int)", "void f(void, int)", "userdata f(int)", "struct mg_str *f(int)", "int f", "int f(int", "(int)", "f(int)", "void f(int (*)(int,int,int,int,int,int,userdata), userdata)" };
  vs_sym(w, 8, "w"); for (i = 0; i < n; i++) vs_assume((w[i] >= 'a' && w[i] <= 'z') | (w[i] == '_') | (w[i] == '1')); w[n] = 0; for (i = 0; i < NTT; i++) if (strlen(TT[i].s) == (size_t) n) vs_assume(!h_bytes_eq(w, TT[i].s, n));
  if (k < 17) put(s, bad[k]); else { put(s, k == 17 ? "" : k == 18 ? "int f(int, " : "int f(void (*)(userdata, "); l = strlen(s); memcpy(s + l, w, n + 1); put(s, k == 17 ? " f(int)" : k == 18 ? ", int)" : "), userdata)"); }
  h_sets(m, "s", s, strlen(s)); mjs_set_ffi_resolver(m, resolver); CHECK(h_run(m, "ffi(s)", &v) != MJS_OK, "a declaration outside the documented forms is an error"); CHECK(mjs_strerror(m, m->error)[0] != 0, "with a message"); h_idle(m, "idle"); h_ok(m, "ffi('int ok(int)')"); vs_reach("end"); }
/* names up to the limit; arguments that are not text */
void H_sig_name(void) { struct mjs *m = h_new(); char s[300] = "int "; int n = vs_choose(130, "len"), i, k; mjs_val_t v; mjs_err_t e; for (i = 0; i < n; i++) s[4 + i] = 'a' + i % 26; s[4 + n] = 0; put(s, "(int)"); h_sets(m, "s", s, strlen(s)); mjs_set_ffi_resolver(m, resolver); nlook = 0; e = h_run(m, "ffi(s)", &v); if (e == MJS_OK) { CHECK(n > 0 && nlook == 1 && (int) strlen(looked) == n && !memcmp(looked, s + 4, n), "the exact name"); vs_reach("ok"); } else { CHECK(n == 0 || n > 99, "short names are accepted"); vs_reach("bad"); }
  { static const char *const x[] = { "ffi()", "ffi(5)", "ffi('')", "ffi(null)", "ffi({})", "ffi('(')", "ffi(' ')" }; k = vs_choose(7, "arg"); CHECK(h_run(m, x[k], &v) != MJS_OK, "not a signature"); h_idle(m, "idle"); } }
