#include "eng.h"
/* An independent JSON recogniser (RFC 8259) over T[0..TL): VALID, INC (the text stops too early), INV, or UNS: an escape above 00ff */
enum { VALID, INC, INV, UNS };
static const char *T; static int TL, uns;
static int ch(int i) { return i < TL ? (unsigned char) T[i] : -1; }
static int dig(int c) { return (c >= '0') & (c <= '9'); }
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void ws(int *i) { while (ch(*i) == ' ' || ch(*i) == '\t' || ch(*i) == '\r' || ch(*i) == '\n') ++*i; }
/* a string token at *i (at the quote); decodes into out (if given) */
static int str(int *i, char *out, int *n) {
  int k = *i + 1, c, l = 0, j;
  for (;; k++) { c = ch(k); if (c < 0) return INC; if (c == '"') break; if (c < 32) return INV;
    if (c == '\\') { c = ch(++k); if (c < 0) return INC;
      if (c == 'u') { int v = 0; for (j = 1; j <= 4; j++) { int h; if (ch(k + j) < 0) return INC; h = hex(ch(k + j)); if (h < 0) return INV; v = v * 16 + h; } k += 4; if (v > 255) uns = 1; c = v; }
      else { const char *f = "\"\\/bfnrt", *t = "\"\\/\b\f\n\r\t"; for (j = 0; f[j] && f[j] != c; j++) ; if (!f[j]) return INV; c = t[j]; }
      if (out) out[l] = c; l++; continue; }
    if (c >= 128) { int m = c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1; if (m < 0) return INV; for (j = 1; j <= m; j++) { int d = ch(k + j); if (d < 0) return INC; if (d < 0x80 || d > 0xbf) return INV; } for (j = 0; j <= m; j++) { if (out) out[l] = T[k + j]; l++; } k += m; continue; }
    if (out) out[l] = c; l++; }
  *i = k + 1; if (n) *n = l; return VALID; }
static int num(int *i, double *v, int *isint) { int k = *i, neg = 0; uint64_t d = 0; *isint = 1; if (ch(k) == '-') { neg = 1; k++; } if (ch(k) < 0) return INC; if (!dig(ch(k))) return INV; if (ch(k) == '0') { k++; if (dig(ch(k))) return INV; } else while (dig(ch(k))) { d = d * 10 + (uint64_t) (ch(k) & 15); k++; }
  if (ch(k) == '.') { *isint = 0; k++; if (ch(k) < 0) return INC; if (!dig(ch(k))) return INV; while (dig(ch(k))) k++; } if (ch(k) == 'e' || ch(k) == 'E') { *isint = 0; k++; if (ch(k) == '+' || ch(k) == '-') k++; if (ch(k) < 0) return INC; if (!dig(ch(k))) return INV; while (dig(ch(k))) k++; } *i = k; if (v) *v = neg ? -(double) d : (double) d; return VALID; }
static int word(int *i, const char *w) { for (; *w; w++, ++*i) { if (ch(*i) < 0) return INC; if (ch(*i) != *w) return INV; } return VALID; }
static int val(int *i) {
  int r, c, ii; ws(i); c = ch(*i); if (c < 0) return INC;
  if (c == '"') return str(i, 0, 0); if (c == 't') return word(i, "true"); if (c == 'f') return word(i, "false"); if (c == 'n') return word(i, "null"); if (c == '-' || dig(c)) return num(i, 0, &ii);
  if (c == '[' || c == '{') { int o = c == '{', e = o ? '}' : ']'; ++*i; ws(i); if (ch(*i) == e) { ++*i; return VALID; }
    for (;;) { if (o) { ws(i); if (ch(*i) < 0) return INC; if (ch(*i) != '"') return INV; if ((r = str(i, 0, 0))) return r; ws(i); if (ch(*i) < 0) return INC; if (ch(*i) != ':') return INV; ++*i; } if ((r = val(i))) return r; ws(i); c = ch(*i); if (c < 0) return INC; ++*i; if (c == e) return VALID; if (c != ',') return INV; } }
  return INV; }
static int json(const char *t, int n) { int i = 0, r; T = t; TL = n; uns = 0; r = val(&i); if (r == VALID) { ws(&i); if (i != TL) return INV; } return r == VALID && uns ? UNS : r; }
/* does v hold the value of the (valid) text at *i? */
static void same(struct mjs *m, int *i, mjs_val_t v) {
  int c; ws(i); c = ch(*i);
  if (c == '"') { char b[400]; int n; str(i, b, &n); CHECK(h_streq(m, v, b, n), "string value"); }
  else if (c == 't') { *i += 4; CHECK(mjs_is_boolean(v) && mjs_get_bool(m, v), "true"); } else if (c == 'f') { *i += 5; CHECK(mjs_is_boolean(v) && !mjs_get_bool(m, v), "false"); } else if (c == 'n') { *i += 4; CHECK(mjs_is_null(v), "null"); }
  else if (c == '[') { int k = 0; CHECK(mjs_is_array(v), "array"); ++*i; ws(i); if (ch(*i) != ']') for (;;) { same(m, i, mjs_array_get(m, v, k++)); ws(i); if (ch((*i)++) == ']') break; } else ++*i; CHECK(mjs_array_length(m, v) == (unsigned long) k, "array length"); }
  else if (c == '{') { char kb[8][40]; int kl[8], at[8], k = 0, j, q, cnt = 0, np = 0; mjs_val_t it = MJS_UNDEFINED; CHECK(mjs_is_object(v) && !mjs_is_array(v), "object"); ++*i; ws(i);
    if (ch(*i) == '}') ++*i; else for (;;) { ws(i); CHECK(k < 8, "model: keys"); str(i, kb[k], &kl[k]); ws(i); ++*i; at[k++] = *i; val(i); ws(i); if (ch((*i)++) == '}') break; }
    for (j = 0; j < k; j++) { for (q = j + 1; q < k; q++) if (kl[q] == kl[j] && !memcmp(kb[q], kb[j], kl[j])) break; if (q < k) continue; cnt++; q = at[j]; same(m, &q, mjs_get(m, v, kb[j], kl[j])); }
    while (mjs_next(m, v, &it) != MJS_UNDEFINED) np++; CHECK(np == cnt, "exactly these keys"); }
  else { double d; int ii; num(i, &d, &ii); CHECK(mjs_is_number(v), "number"); if (ii) CHECK(mjs_get_double(m, v) == d, "number value"); } }
/* parse n bytes and judge */
static size_t live0;
static void judge(const char *b, int n, int how) {
  struct mjs *m = h_new(); mjs_val_t r = MJS_UNDEFINED; mjs_err_t e; size_t ow; int st, i = 0; char *x = (char *) malloc(n ? n : 1); memcpy(x, b, n); mjs_own(m, &r); ow = m->owned_values.len;
  if (how == 0) e = mjs_json_parse(m, x, n, &r); else { mjs_set(m, mjs_get_global(m), "s", 1, how == 1 ? mjs_mk_string(m, x, n, 1) : mjs_mk_string(m, x, n, 0)); e = h_run(m, "let t='keep this text'; JSON.parse(s)", &r); }
  CHECK(m->owned_values.len == ow, "owned values as before"); st = json(b, n);
  if (st == VALID) { CHECK(e == MJS_OK && m->error == MJS_OK, "well-formed text is accepted"); mjs_gc(m, 1); same(m, &i, r); vs_reach("valid"); }
  if (st == INC) { CHECK(e != MJS_OK, "truncated text is rejected"); vs_reach("truncated"); }
  if (e != MJS_OK) { const char *t = mjs_strerror(m, e); CHECK(t && *t, "message"); vs_reach("error"); }
  if (how) { CHECK(h_streq(m, h_get(m, "s"), x, n), "the text is unchanged"); h_idle(m, "idle"); }
  CHECK(mjs_exec(m, "JSON.parse('{\"a\":[1,\"two\"]}').a[1]", &r) == MJS_OK && h_streq(m, r, "two", 3), "later parse");
  mjs_disown(m, &r); mjs_destroy(m); free(x); CHECK(vs_live() == live0, "no leak"); }
#ifndef NRAW
#define NRAW 4
#endif
void H_json_raw(void) { char b[NRAW + 1]; int n = vs_choose(NRAW + 1, "n"), how = vs_choose(3, "how"); vs_sym(b, NRAW, "b"); live0 = vs_live(); judge(b, n, how); }
/* texts with holes of arbitrary bytes ('?'), and every prefix of them */
static const char *const TM[] = { "{\"a\":?}", "{\"?\":1}", "[?,2]", "[1?2]", "\"??\"", "\"\\?\"", "\"\\?a\"", "\"\\u00??\"", "\"\\u?041\"", "{\"a\":[{\"b?\":null}]}", "{\"a\":1,\"?\":2}", "{\"a\":1?\"b\":2}", "[[],[?]]", "[true?false]", "{?\"a\":{}}", "-?", "1?", "12345678?", "-9?", "[\"a\",?]", "{\"\":?\"\"}", "{\"ab\":\"c?\",\"ab\":\"d\"}", "[n?ll]", "[tru?]", "fal?e", "?[]", "[]?", "{\"k\":[1,{\"l\":[2,\"?\"]},3],\"m\":\"n\"}", "{\"a?b\":0}", "{\"a\\?\":7}", "[\"longer than six?\",\"another long one?\"]", "[[[[?]]]]", "{\"a\":{\"a\":{\"a\":?}}}", "\"\xc3?\"", "\"\xe2\x82?\"", "[\"\xf0\x9f\x98\x80?\",?]", "[1.?5]", "[1e?1]", "{\"a\":\"\\\"?\"}", "[\"\\\\?\",0]", "\t[ ? ]\n", "{ \"a\" ? 1 }" };
#ifndef HOLE
#define HOLE 1
#endif
static int expand(const char *t, char *b) { int n = 0; for (; *t; t++) if (*t == '?') { vs_sym(b + n, HOLE, "h"); n += HOLE; } else b[n++] = *t; return n; }
void H_json_tmpl(void) { char b[100]; int n = expand(TM[vs_choose((int) (sizeof(TM) / sizeof(*TM)), "t")], b), how = vs_choose(2, "how"); live0 = vs_live(); judge(b, n, how); }
void H_json_prefix(void) { char b[100]; int n = expand(TM[vs_choose((int) (sizeof(TM) / sizeof(*TM)), "t")], b), k; k = vs_choose(n, "cut"); live0 = vs_live(); judge(b, k, vs_choose(2, "how")); }
/* texts built from a grammar: NT choices of value, spaces where allowed */
static char *P; static int budget, nk;
static void put(const char *s) { while (*s) *P++ = *s++; }
static void sp(void) { static const char *const W[] = { "", " ", "\n", "\t", "\r" }; put(W[(P - T + budget) % 5]); }
static void symstr(int l) { *P++ = '"'; vs_sym(P, l, "str"); { int i; for (i = 0; i < l; i++) vs_assume((P[i] >= 32) & (P[i] != '"') & (P[i] != '\\')); } P += l; *P++ = '"'; }
static void gen(int depth) {
  int c = budget > 0 ? vs_choose(depth > 0 ? 8 : 6, "v") : 0; budget--; sp();
  switch (c) { case 0: { static const char *const N[] = { "0", "7", "-12", "4294967296", "2147483648", "100" }; put(N[(P - T) % 6]); } break; case 1: put("-9007199254740991"); break; case 2: put(budget & 1 ? "true" : "false"); break; case 3: put("null"); break; case 4: symstr(2); break; case 5: put("\"q\\\"\\u0041\\n\\\\ long\""); break;
    case 6: case 7: { int n = vs_choose(4, "n"), i; put(c == 6 ? "[" : "{"); for (i = 0; i < n; i++) { if (i) put(","); if (c == 7) { sp(); nk++; if (nk % 3 == 2) symstr(1); else put(nk % 3 ? "\"key number one\"" : "\"\\u006b\""); sp(); put(":"); } gen(depth - 1); sp(); } sp(); put(c == 6 ? "]" : "}"); } }
  sp(); }
#ifndef BUD
#define BUD 4
#endif
void H_json_gram(void) { char b[400]; live0 = vs_live(); P = b; T = b; budget = BUD; nk = 0; gen(3); { int n = P - b; CHECK(n < 400, "model: size"); CHECK(json(b, n) == VALID, "model: the grammar gives JSON"); judge(b, n, nk & 1); } }
void H_json_args(void) { struct mjs *m = h_new(); mjs_val_t r; static const char *const A[] = { "", "1", "null", "undefined", "{}", "[1]", "function(){}", "true", "JSON" }; char s[60]; int k = vs_choose(9, "arg"); strcpy(s, "JSON.parse("); strcat(s, A[k]); strcat(s, ")"); CHECK(h_run(m, s, &r) != MJS_OK, "not a string"); h_idle(m, "idle"); h_ok(m, "JSON.parse('1')"); mjs_destroy(m); }
/* C03: values built by the host in two copies: F is printed, Q is what a reader must see */
#ifndef VBUD
#define VBUD 3
#endif
static int vbud, sk; static mjs_val_t FN, SIG;
static mjs_val_t pool[64]; static int npool;
static mjs_val_t keep(struct mjs *m, mjs_val_t v) { CHECK(npool < 64, "model: pool"); pool[npool] = v; mjs_own(m, &pool[npool++]); return v; }
static int symkey(char *b) { char nm[4] = "s0"; int l = sk++ % 3, i; nm[1] += sk % 10; if (sk > 4) { memcpy(b, "plain key", 9); b[0] += sk; return 9; } vs_sym(b, l, nm); for (i = 0; i < l; i++) vs_assume((b[i] >= 32) & (b[i] != '"') & (b[i] != '\\') & (b[i] != '_')); return l; }
static int hidden(mjs_val_t v) { return mjs_is_undefined(v) || mjs_is_function(v) || mjs_is_foreign(v) || mjs_is_ffi_sig(v); }
static void build(struct mjs *m, int depth, mjs_val_t *f, mjs_val_t *q) {
  static const double N[] = { 0, -1, 42, 2147483647.0, -2147483648.0, 4294967296.0, 123456789012.0 };
  int c = vbud > 0 ? vs_choose(depth > 0 ? 10 : 8, "v") : 0; vbud--;
  switch (c) { case 0: *f = *q = mjs_mk_number(m, N[(sk + vbud + 8) % 7]); break; case 1: *f = *q = mjs_mk_boolean(m, vbud & 1); break; case 2: *f = *q = MJS_NULL; break;
    case 3: { char b[16]; int l = symkey(b); *f = keep(m, mjs_mk_string(m, b, l, 1)); *q = keep(m, mjs_mk_string(m, b, l, 1)); } break; case 4: { static const char t[] = "quite \"long\" \\string\\ \n\t\x01\x1f end\0after"; *f = keep(m, mjs_mk_string(m, t, sizeof t - 1, 1)); *q = keep(m, mjs_mk_string(m, t, sizeof t - 1, 0)); } break;
    case 5: *f = *q = MJS_UNDEFINED; break; case 6: *f = *q = FN; break; case 7: *f = *q = vbud & 1 ? mjs_mk_foreign(m, (void *) 4096) : SIG; break;
    default: { int n = vs_choose(4, "n"), i; mjs_val_t a = MJS_UNDEFINED, b = MJS_UNDEFINED; *f = keep(m, c == 8 ? mjs_mk_array(m) : mjs_mk_object(m)); *q = keep(m, c == 8 ? mjs_mk_array(m) : mjs_mk_object(m));
      for (i = 0; i < n; i++) { char k[16]; int l; build(m, depth - 1, &a, &b); if (c == 8) { mjs_array_set(m, *f, i, a); mjs_array_set(m, *q, i, hidden(b) ? MJS_NULL : b); } else { l = symkey(k); mjs_set(m, *f, k, l, a); if (!hidden(b)) mjs_set(m, *q, k, l, b); else mjs_del(m, *q, k, l); } } } } }
static void start_env(struct mjs *m) { npool = 0; sk = 0; FN = SIG = MJS_UNDEFINED; mjs_own(m, &FN); mjs_own(m, &SIG); h_run(m, "(function(a){return a;})", &FN); mjs_set_ffi_resolver(m, 0); SIG = MJS_NULL; }
static void *one_sym(void *h, const char *n) { (void) h; (void) n; return (void *) start_env; }
void H_sfy_val(void) {
  struct mjs *m; mjs_val_t f, q, r, p; char *s = 0, *s2 = 0; int i = 0; size_t n; const char *t; live0 = vs_live(); m = h_new(); start_env(m); mjs_set_ffi_resolver(m, one_sym); h_run(m, "ffi('int anything(int)')", &SIG); CHECK(mjs_is_ffi_sig(SIG), "model: ffi"); vbud = VBUD; build(m, 2, &f, &q); if (hidden(f)) vs_exit();
  mjs_own(m, &f); mjs_own(m, &q); CHECK(mjs_json_stringify(m, f, NULL, 0, &s) == MJS_OK, "printed"); n = strlen(s); CHECK(json(s, n) == VALID, "well-formed JSON"); same(m, &i, q); CHECK(i == (int) n, "nothing else"); CHECK(m->json_visited_stack.len == 0, "idle");
  CHECK(mjs_json_stringify(m, f, NULL, 0, &s2) == MJS_OK && strlen(s2) == n && h_bytes_eq(s, s2, n), "printing again gives the same"); free(s2);
  mjs_set(m, mjs_get_global(m), "v", 1, f); r = h_ok(m, "JSON.stringify(v)"); CHECK(h_streq(m, r, s, n), "printed by a script"); p = h_ok(m, "JSON.parse(JSON.stringify(v))"); mjs_own(m, &p); mjs_gc(m, 1); i = 0; T = s; TL = n; same(m, &i, p); vs_reach("end"); (void) t;
  free(s); h_idle(m, "idle"); mjs_destroy(m); CHECK(vs_live() == live0, "no leak"); }
#ifndef SL
#define SL 3
#endif
void H_sfy_str(void) { struct mjs *m = h_new(); char b[SL + 8], *s = 0; int n = vs_choose(SL + 1, "n"), w = vs_choose(4, "where"), i; mjs_val_t v, r; vs_sym(b, SL, "b"); for (i = 0; i < SL; i++) vs_assume(b[i] >= 0); if (w == 3) { memcpy(b + n, "pad pad", 7); n += 7; }
  v = mjs_mk_string(m, b, n, w != 2); if (w == 1) { mjs_val_t o = mjs_mk_object(m); vs_assume((n != 3) | (b[0] != '_')); mjs_set(m, o, b, n, mjs_mk_number(m, 1)); v = o; } mjs_own(m, &v); mjs_set(m, mjs_get_global(m), "v", 1, v);
  mjs_json_stringify(m, v, NULL, 0, &s); CHECK(json(s, strlen(s)) == VALID, "well-formed"); i = 0; same(m, &i, v); r = h_ok(m, "JSON.parse(JSON.stringify(v))"); mjs_own(m, &r); if (w == 1) { r = h_ok(m, "let r=JSON.parse(JSON.stringify(v)); let k=''; for(let j in r){k=j;} k"); } CHECK(h_streq(m, r, b, n), "round trip"); free(s); vs_reach("end"); mjs_destroy(m); }
void H_sfy_num(void) { struct mjs *m = h_new(); static const int64_t B[] = { 0, 70000, 999990, 2147483647, 2147483648, 99999999999ll, 9007199254740000ll, -40000, -2147483649ll, -9007199254740800ll }; int64_t x; int8_t dx; int w = vs_choose(2, "w"), i = 0, k; int64_t y = 0; char *s = 0; mjs_val_t v, r; vs_sym(&dx, 1, "x"); x = B[vs_choose(10, "base")] + dx; v = mjs_mk_number(m, x); if (w) { r = mjs_mk_array(m); mjs_own(m, &r); mjs_array_push(m, r, v); v = r; } mjs_json_stringify(m, v, NULL, 0, &s); k = w; if (s[k] == '-') k++; CHECK(dig(s[k]), "digit"); CHECK(s[k] != '0' || !dig(s[k + 1]), "no leading zero"); for (; dig(s[k]); k++) y = y * 10 + (s[k] & 15); CHECK((s[w] == '-' ? -y : y) == x, "digits"); CHECK(s[k] == (w ? ']' : 0), "nothing else"); free(s); (void) i; vs_reach("end"); }
/* graphs of arrays and one-member objects: shared parts are printed in full each time, only cycles are cut */
#define GN 3
static int gl[GN][2], gt[GN]; static char *gp;
static void gput(const char *s) { while (*s) *gp++ = *s++; }
static void gprint(int i, int on) { if (i == GN) { gput("7"); return; } if (on >> i & 1) { gput("[Circular]"); return; } on |= 1 << i; if (gt[i]) { gput("["); gprint(gl[i][0], on); gput(","); gprint(gl[i][1], on); gput("]"); } else { gput("{\"k\":"); gprint(gl[i][0], on); gput("}"); } }
void H_sfy_graph(void) {
  struct mjs *m = h_new(); mjs_val_t o[GN], r; int i, k; char x[400], *s = 0; size_t vs0; for (i = 0; i < GN; i++) { gt[i] = vs_choose(2, "array"); gl[i][0] = vs_choose(GN + 1, "link"); gl[i][1] = gt[i] ? vs_choose(GN + 1, "link") : 0; o[i] = MJS_UNDEFINED; mjs_own(m, &o[i]); o[i] = gt[i] ? mjs_mk_array(m) : mjs_mk_object(m); }
  for (i = 0; i < GN; i++) for (k = 0; k <= gt[i]; k++) { mjs_val_t t = gl[i][k] == GN ? mjs_mk_number(m, 7) : o[gl[i][k]]; if (gt[i]) mjs_array_set(m, o[i], k, t); else mjs_set(m, o[i], "k", 1, t); }
  gp = x; gprint(0, 0); *gp = 0; CHECK(gp - x < 400, "model: size"); for (k = 0; k < 2; k++) { CHECK(mjs_json_stringify(m, o[0], NULL, 0, &s) == MJS_OK, "printed"); CHECK(!strcmp(s, x), "text"); free(s); } mjs_set(m, mjs_get_global(m), "v", 1, o[0]); r = h_ok(m, "JSON.stringify(v)"); CHECK(h_streq(m, r, x, gp - x), "by a script"); (void) vs0; mjs_destroy(m); vs_reach("end"); }
/* long strings, sparse arrays, wrong calls */
void H_sfy_long(void) { static const int L[] = { 5, 6, 20, 21, 48, 49, 50, 51, 99, 100, 127, 128, 1000, 5000 }; struct mjs *m = h_new(); static char b[5000]; char *s; int l = L[vs_choose(14, "len")], i; mjs_val_t v, a = mjs_mk_array(m), r; memset(b, 'x', l); vs_sym(b, 1, "b0"); vs_sym(b + l / 2, 1, "b1"); vs_sym(b + l - 1, 1, "b2"); vs_assume((b[0] >= 0) & (b[l / 2] >= 0) & (b[l - 1] >= 0)); mjs_own(m, &a); v = mjs_mk_string(m, b, l, 1); mjs_array_push(m, a, v); mjs_array_set(m, a, 2, v); mjs_set(m, mjs_get_global(m), "v", 1, a);
  r = h_ok(m, "let t=JSON.stringify(v); let p=JSON.parse(t); if(p.length!==3 || p[1]!==null){die('bad');} p[2]"); CHECK(h_streq(m, r, b, l), "last"); r = h_ok(m, "p[0]"); CHECK(h_streq(m, r, b, l), "first"); (void) s; (void) i; vs_reach("end"); mjs_destroy(m); }
