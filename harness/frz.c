#include "json.c"
/* C21: the JSON library. Reference: the list of tokens of a strictly valid text, with their paths. */
#define MT 40
#define MP 64
struct tk { int type, off, len, nl; char path[MP], name[24]; }; /* off -1: no text */
static struct tk X[MT], Y[MT]; static int nx, ny;
static void emit(int type, int off, int len, const char *path, const char *name, int nl) { struct tk *t = &X[nx++]; CHECK(nx < MT, "model: tokens"); t->type = type; t->off = off; t->len = len; strcpy(t->path, path); t->nl = nl; if (nl > 0) memcpy(t->name, name, nl); }
static void toks(int *i, char *path, const char *name, int nl) {
  int c, s, pl = strlen(path), k = 0, d; ws(i); c = ch(*i); s = *i; CHECK(pl < MP - 12, "model: path");
  if (c == '"') { str(i, 0, 0); emit(JSON_TYPE_STRING, s + 1, *i - s - 2, path, name, nl); } else if (c == 't' || c == 'n') { *i += 4; emit(c == 't' ? JSON_TYPE_TRUE : JSON_TYPE_NULL, s, 4, path, name, nl); } else if (c == 'f') { *i += 5; emit(JSON_TYPE_FALSE, s, 5, path, name, nl); }
  else if (c == '[') { emit(JSON_TYPE_ARRAY_START, -1, 0, path, name, nl); ++*i; ws(i); if (ch(*i) == ']') ++*i; else for (;; k++) { char nb[4] = { '0' + k, 0 }; path[pl] = '['; path[pl + 1] = '0' + k; path[pl + 2] = ']'; path[pl + 3] = 0; toks(i, path, nb, 1); path[pl] = 0; ws(i); if (ch((*i)++) == ']') break; } emit(JSON_TYPE_ARRAY_END, s, *i - s, path, 0, 0); }
  else if (c == '{') { emit(JSON_TYPE_OBJECT_START, -1, 0, path, name, nl); ++*i; ws(i); if (ch(*i) == '}') ++*i; else for (;;) { int q; ws(i); q = *i + 1; str(i, 0, 0); CHECK(*i - 1 - q < 20, "model: key"); path[pl] = '.'; memcpy(path + pl + 1, T + q, *i - 1 - q); path[pl + *i - q] = 0; { int ql = *i - 1 - q; char kb[24]; memcpy(kb, T + q, ql); ws(i); ++*i; toks(i, path, kb, ql); } path[pl] = 0; ws(i); if (ch((*i)++) == '}') break; } emit(JSON_TYPE_OBJECT_END, s, *i - s, path, 0, 0); }
  else { num(i, 0, &d); emit(JSON_TYPE_NUMBER, s, *i - s, path, name, nl); } }
static int list(const char *t, int n) { char path[MP] = ""; int i = 0; T = t; TL = n; nx = 0; toks(&i, path, 0, 0); return i; }
/* walking: inside the input, properly nested; exactly these tokens for a valid text */
static int wn, exact, depth; static const char *wb; static int wl;
static void wcb(void *d, const char *name, size_t nl, const char *path, const struct json_token *t) {
  CHECK(d == &wn, "callback data"); CHECK(t->ptr == NULL || (t->ptr >= wb && t->len >= 0 && t->ptr + t->len <= wb + wl), "token inside the input"); if (name && nl && vs_readable(name, nl) != 1) CHECK(0, "name is readable");
  if (t->type == JSON_TYPE_OBJECT_START || t->type == JSON_TYPE_ARRAY_START) depth++; if (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END) { depth--; CHECK(depth >= 0, "nesting"); }
  if (exact) { struct tk *x = &X[wn]; CHECK(wn < nx && x->type == (int) t->type, "token"); CHECK(x->off < 0 ? t->ptr == NULL : t->ptr == wb + x->off && t->len == x->len, "extent"); CHECK(!strcmp(path, x->path), "path"); CHECK((int) nl == x->nl && (!nl || h_bytes_eq(name, x->name, nl)), "name"); }
  wn++; }
static void walk(const char *s, int n) {
  char *x = (char *) malloc(n ? n : 1); int st, r, used = 0; memcpy(x, s, n); st = json(x, n); exact = 0; if (st == VALID) { used = list(x, n); exact = 1; } wb = x; wl = n; wn = 0; depth = 0; r = json_walk(x, n, wcb, &wn);
  if (st == VALID) { CHECK(r == used, "consumed"); CHECK(wn == nx, "all tokens"); vs_reach("valid"); } if (st == INC) { CHECK(r == JSON_STRING_INCOMPLETE, "incomplete"); vs_reach("truncated"); } if (r < 0) { CHECK(r == JSON_STRING_INCOMPLETE || r == JSON_STRING_INVALID, "error code"); vs_reach("error"); } else { CHECK(r <= n && depth == 0, "well nested"); }
  CHECK(json_walk(x, n, NULL, NULL) == r, "without a callback"); free(x); }
void H_walk_raw(void) { char b[NRAW + 1]; int n = vs_choose(NRAW + 1, "n"); vs_sym(b, NRAW, "b"); walk(b, n); }
void H_walk_tmpl(void) { char b[100]; int n = expand(TM[vs_choose((int) (sizeof(TM) / sizeof(*TM)), "t")], b), c = vs_choose(2, "cut"); walk(b, c ? vs_choose(n, "at") : n); }
void H_walk_gram(void) { char b[400]; int n; P = b; T = b; budget = BUD; nk = 0; gen(2); n = P - b; CHECK(n < 400, "model: size"); CHECK(json(b, n) == VALID, "model"); walk(b, n); }
/* a path longer than the library keeps: no damage, values still reported */
static int lv; static void lcb(void *d, const char *name, size_t nl, const char *path, const struct json_token *t) { (void) d; CHECK(strlen(path) < 300, "path terminated"); if (t->type == JSON_TYPE_NUMBER) { lv++; CHECK(t->len == 1 && *t->ptr == '0' + lv, "value"); CHECK(nl == (lv == 3 ? 1 : lv == 1 ? 1u : 2u), "name"); } (void) name; }
void H_walk_long(void) { static const int L[] = { 1, 100, 120, 200, 252, 253, 254, 255, 256, 257, 300, 600 }; static char b[2000]; int l = L[vs_choose(12, "len")], n = 0, i; b[n++] = '{'; b[n++] = '"'; for (i = 0; i < l; i++) b[n++] = 'k'; vs_sym(b + 1 + l, 1, "c"); vs_assume((b[1 + l] > 32) & (b[1 + l] != '"') & (b[1 + l] != '\\')); memcpy(b + n, "\":[{\"x\":1,\"yy\":2}],\"z\":3}", 26); n += 26; if (n > 26) n--; lv = 0; wn = 0; CHECK(json_walk(b, n, lcb, 0) == n, "all consumed"); CHECK(lv == 3, "all values"); }
/* escaping */
#ifndef NE
#define NE 3
#endif
void H_escape(void) {
  char in[NE], out[NE * 6 + 2], small[NE * 6 + 2], *x; int n = vs_choose(NE + 1, "n"), i, r, u, sz; char back[NE + 1]; struct json_out o = JSON_OUT_BUF(out, sizeof out); vs_sym(in, NE, "in"); x = (char *) malloc(n ? n : 1); memcpy(x, in, n); memset(out, '~', sizeof out);
  r = json_escape(&o, x, n); CHECK(r >= n && r <= 6 * n && (!r || out[r] == 0), "length"); for (i = 0; i < r; i++) CHECK((unsigned char) out[i] >= 32, "no control characters"); u = json_unescape(out, r, back, n); CHECK(u == n && h_bytes_eq(back, in, n), "unescape inverts escape"); CHECK(json_unescape(out, r, NULL, 0) == n, "length only");
  { char q[NE * 6 + 4]; int ok; q[0] = '"'; memcpy(q + 1, out, r); q[r + 1] = '"'; ok = json(q, r + 2); for (i = 0; i < n; i++) if (in[i] < 0) break; if (i == n) CHECK(ok == VALID, "valid JSON string"); }
  sz = vs_choose(5, "size"); { struct json_out p = JSON_OUT_BUF(small, sz); char *hs = (char *) malloc(sz ? sz : 1); p.u.buf.buf = hs; CHECK(json_escape(&p, x, n) == r, "same length in a small buffer"); if (sz && r) { int w = r < sz ? r : sz - 1; CHECK(h_bytes_eq(hs, out, w) && hs[w] == 0, "truncated"); } free(hs); } free(x); vs_reach("end"); }
#ifndef NU
#define NU 6
#endif
void H_unescape(void) {
  char in[NU]; int n = vs_choose(NU + 1, "n"), d = vs_choose(4, "dlen"), k = 0, i, bad = 0, r; unsigned char e[NU]; char *x = (char *) malloc(n ? n : 1), *y = (char *) malloc(d ? d : 1); vs_sym(in, NU, "in"); memcpy(x, in, n);
  for (i = 0; i < n && !bad; i++) { if (in[i] != '\\') { e[k++] = in[i]; continue; } if (++i >= n) { bad = 1; break; } if (in[i] == 'u') { if (n - i < 5) { bad = 1; break; } if (in[i + 1] != '0' || in[i + 2] != '0') { bad = 2; break; } if (hex(in[i + 3]) < 0 || hex(in[i + 4]) < 0) vs_exit(); e[k++] = hex(in[i + 3]) * 16 + hex(in[i + 4]); i += 4; } else { const char *f = "\"\\/bfnrt", *t = "\"\\/\b\f\n\r\t"; int j; for (j = 0; f[j] && f[j] != in[i]; j++) ; if (!f[j]) { bad = 2; break; } e[k++] = t[j]; } }
  r = json_unescape(x, n, y, d); if (bad) { CHECK(r == (bad == 1 ? JSON_STRING_INCOMPLETE : JSON_STRING_INVALID), "malformed"); vs_reach("bad"); } else { CHECK(r == k, "length"); CHECK(h_bytes_eq(y, (char *) e, k < d ? k : d), "bytes"); vs_reach("good"); } free(x); free(y); }
/* scanning by path: a document with three members, one nested, names of a symbolic letter and values of any kind */
static int vn; static int vtype[6], vstart[6], vlen[6]; /* the values put, in order */
static void key1(void) { *P++ = '"'; vs_sym(P, 1, "key"); vs_assume((*P >= 'a') & (*P <= 'z')); P++; *P++ = '"'; put(":"); }
static void num1(void) { int i, n = vs_choose(3, "digits"), k = n == 2; if (vs_choose(2, "neg")) *P++ = '-'; if (k) { put("2147483"); n = 2; } else n++; vs_sym(P, n, "num"); for (i = 0; i < n; i++) vs_assume((P[i] >= '0' + (i == 0 && !k)) & (P[i] <= '9')); P += n; }
static void scal(int kinds) { int c = vs_choose(kinds, "kind"), k = vn++; char *q = P; vtype[k] = c;
  switch (c) { case 0: num1(); break; case 1: *P++ = '"'; vs_sym(P, 2, "str"); vs_assume((P[0] >= 32) & (P[0] != '"') & (P[0] != '\\') & (P[1] >= 32) & (P[1] != '"') & (P[1] != '\\')); P += 2; *P++ = '"'; q++; break; case 2: put("true"); break; case 3: put("false"); break; case 4: put("null"); break; case 5: put("\"x\\n\\u0041\\\"y\""); q++; break; case 6: put("[1, {\"b\":2}]"); break; case 7: put("{\"b\" : 3}"); break; case 8: put("\"\""); q++; break; }
  vstart[k] = q - T; vlen[k] = P - q - (c == 1 || c == 5 || c == 8); }
static int scan_n; static int scan_cb_len; static void *scan_cb_ptr, *scan_cb_u; static void scan_cb(const char *s, int n, void *u) { scan_n++; scan_cb_ptr = (void *) s; scan_cb_len = n; scan_cb_u = u; }
static long numval(const char *s, int n) { long v = 0; int i = *s == '-'; for (; i < n; i++) v = v * 10 + (s[i] - '0'); return *s == '-' ? -v : v; }
#define DOCMAX 120
static char doc[DOCMAX]; static int docn, tgt; /* tgt: index of the value wanted, or -1 */
/* the value at .a (w 0), .c.a (w 1), of a document; other places hold the other letter by assumption when they would match twice */
static void mkdoc(int w, int kinds) { int ks, kt, kb; P = doc; T = doc; vn = 0; put("{"); key1(); ks = P[-3]; put(" "); put("[0,{\"a\":9,\"c\":{\"a\":8}}]"); put(" ,"); key1(); kt = P[-3]; if (w) { put("{"); key1(); kb = P[-3]; scal(kinds); put(",\"zz\":{}}"); } else { kb = 0; scal(kinds); } put("}"); docn = P - doc; CHECK(docn < DOCMAX, "model: size"); vs_assume(ks != kt); if (w) { vs_assume(ks != 'c'); tgt = (kt == 'c') & (kb == 'a') ? 0 : -1; } else { vs_assume(ks != 'a'); tgt = kt == 'a' ? 0 : -1; } }
void H_scan(void) {
  int w = vs_choose(2, "where"), d = vs_choose(9, "dir"), r, t; char *x; mkdoc(w, 9); x = (char *) malloc(docn); memcpy(x, doc, docn); t = tgt < 0 ? -1 : vtype[0];
  { const char *v = doc + (t < 0 ? 0 : vstart[0]); int vl = t < 0 ? 0 : vlen[0];
#define FMT(f) (w ? "{c:{a:" f "}}" : "{a:" f "}")
  switch (d) {
    case 0: { int y = 77; r = json_scanf(x, docn, FMT("%d"), &y); if (t == 0) { CHECK(r == 1 && y == (int) numval(v, vl), "integer"); vs_reach("int"); } else if (t != 1 && t != 8) CHECK(r == 0 && y == 77, "no integer there"); } break;
    case 1: { long y = 77; r = json_scanf(x, docn, FMT("%ld"), &y); if (t == 0) CHECK(r == 1 && y == numval(v, vl), "long"); else if (t != 1 && t != 8) CHECK(r == 0 && y == 77, "no long there"); } break;
    case 2: { unsigned y = 77; r = json_scanf(x, docn, FMT("%u"), &y); if (t == 0) CHECK(r == 1 && y == (unsigned) numval(v, vl), "unsigned"); else if (t != 1 && t != 8) CHECK(r == 0 && y == 77, "no unsigned there"); } break;
    case 3: { bool y = 0, z = 1; r = json_scanf(x, docn, FMT("%B"), &y); json_scanf(x, docn, FMT("%B"), &z); if (t == 2) CHECK(r == 1 && y == 1, "true"); if (t == 3) CHECK(r == 1 && z == 0, "false"); if (t < 0) CHECK(r == 0 && y == 0 && z == 1, "no bool there"); } break;
    case 4: { char *y = x; r = json_scanf(x, docn, FMT("%Q"), &y); if (t == 1) { CHECK(r == 1 && y != x && y[2] == 0 && h_bytes_eq(y, v, 2), "string"); vs_reach("str"); } else if (t == 5) CHECK(r == 1 && !strcmp(y, "x\nA\"y"), "escaped string"); else if (t == 8) CHECK(r == 1 && y != x && y[0] == 0, "empty string"); else if (t == 4) CHECK(r == 0 && y == NULL, "null"); else if (t < 0) CHECK(r == 0 && y == x, "no string there"); if (y != x) free(y); } break;
    case 5: { struct json_token y; y.type = JSON_TYPE_INVALID; y.ptr = 0; r = json_scanf(x, docn, FMT("%T"), &y); if (t < 0) CHECK(r == 0 && y.ptr == 0, "no token there"); else { static const int TY[] = { JSON_TYPE_NUMBER, JSON_TYPE_STRING, JSON_TYPE_TRUE, JSON_TYPE_FALSE, JSON_TYPE_NULL, JSON_TYPE_STRING, JSON_TYPE_ARRAY_END, JSON_TYPE_OBJECT_END, JSON_TYPE_STRING }; CHECK(r == 1 && (int) y.type == TY[t] && y.ptr == x + vstart[0] && y.len == vl, "token"); } } break;
    case 6: { int u; scan_n = 0; r = json_scanf(x, docn, FMT("%M"), scan_cb, &u); if (t < 0) CHECK(r == 0 && scan_n == 0, "not called"); else CHECK(r == 1 && scan_n == 1 && scan_cb_ptr == x + vstart[0] && scan_cb_len == vl && scan_cb_u == &u, "called with the text of the value"); } break;
    case 7: { struct json_token y; int idx = vs_choose(3, "idx"); r = json_scanf_array_elem(x, docn, w ? ".c.a" : ".a", idx, &y); if (t == 6 && idx < 2) { CHECK(r == y.len && (idx ? y.len == 7 && y.type == JSON_TYPE_OBJECT_END : y.len == 1 && *y.ptr == '1' && y.type == JSON_TYPE_NUMBER) && y.ptr == x + vstart[0] + (idx ? 4 : 1), "element"); vs_reach("elem"); } else CHECK(r == -1 && y.ptr == 0, "no such element"); } break;
    case 8: { int y = 77, z = 78; r = json_scanf(x, docn, w ? "{c:{b:%d, a:%d}}" : "{b:%d, a:%d}", &z, &y); if (t == 0) CHECK(r == 1 && y == (int) numval(v, vl) && z == 78, "second of two"); } break;
  } }
  free(x); }
/* hexadecimal and base64 */
#ifndef NH2
#define NH2 6
#endif
void H_scan_bin(void) {
  unsigned char in[NH2]; char out[64], *y = 0; int n = vs_choose(NH2 + 1, "n"), k = -1, r, l, how = vs_choose(2, "how"); struct json_out o = JSON_OUT_BUF(out, sizeof out); { int i, f = vs_choose(NH2, "free"); for (i = 0; i < NH2; i++) in[i] = 255 - 50 * i; if (how && n <= 3) vs_sym(in, NH2, "in"); else vs_sym(in + f, 1, "in"); }
  l = how ? json_printf(&o, "{a:%V,b:%d}", in, n, n) : json_printf(&o, "{a:%H,b:%d}", n, in, n); CHECK(l == (int) strlen(out) && l == (how ? (n + 2) / 3 * 4 : 2 * n) + 14, "length"); CHECK(json(out, l) == VALID, "JSON");
  r = how ? json_scanf(out, l, "{a:%V}", &y, &k) : json_scanf(out, l, "{a:%H}", &k, &y); CHECK(r == 1 && k == n && y[n] == 0 && h_bytes_eq(y, (char *) in, n), "same bytes"); free(y); if (!how) { int i; for (i = 0; i < n; i++) CHECK(hex(out[6 + 2 * i]) * 16 + hex(out[7 + 2 * i]) == in[i], "hexadecimal"); } vs_reach("end"); }
/* printing: directives next to each other, buffers of every size; the arguments are consumed in order */
static char *rp; static void rput(const char *s) { while (*s) *rp++ = *s++; }
static void rnum(int64_t v, int isu) { char t[24]; int n = 0; uint64_t u = isu || v >= 0 ? (uint64_t) v : 0 - (uint64_t) v; if (!isu && v < 0) *rp++ = '-'; do { t[n++] = '0' + u % 10; u /= 10; } while (u); while (n) *rp++ = t[--n]; }
static void rq(const char *s, int n) { int i; *rp++ = '"'; for (i = 0; i < n; i++) { if (s[i] == '"') *rp++ = '\\'; *rp++ = s[i]; } *rp++ = '"'; }
static int pm(struct json_out *o, va_list *ap) { int a = va_arg(*ap, int); const char *s = va_arg(*ap, const char *); return json_printf(o, "[%d,%Q]", a, s); }
/* one directive: appends its text to f and the expected output; the arguments go to the slots */
static const int64_t IV[] = { 0, 7, -1, 2147483647, -2147483648ll, 99999 };
#define ND 14
static int64_t ia, ib; static char sa[3], sb[3];
static int refd(int d, int64_t v, const char *s) { switch (d) { case 0: rnum((int) v, 0); break; case 1: rnum(v * 4294967297ll, 0); break; case 2: rnum(v, 1); break; case 3: rnum((int64_t) (size_t) v, 1); break; case 4: rput(v & 1 ? "true" : "false"); break; case 5: rq(s, strlen(s)); break; case 6: rq(s, 2); break; case 7: rput("null"); break; case 8: rput(s); break; case 9: rnum((int) v, 0); break; case 10: *rp++ = s[0]; break; case 11: rput("%"); break; case 12: rput("["); rnum((int) v, 0); rput(","); rq(s, strlen(s)); rput("]"); break; case 13: rput("\""); { int i; for (i = 0; i < 2; i++) { *rp++ = "0123456789abcdef"[s[i] >> 4 & 15]; *rp++ = "0123456789abcdef"[s[i] & 15]; } } rput("\""); break; } return 0; }
static const char *const DF[ND] = { "%d", "%lld", "%llu", "%zu", "%B", "%Q", "%.*Q", "%Q", "%s", "%ld", "%c", "%%", "%M", "%H" };
/* calls json_printf with directive d between L and R and an int after it */
static int prd(struct json_out *o, int d, const char *f, int64_t v, const char *s, int z) { switch (d) { case 0: return json_printf(o, f, (int) v, z); case 1: return json_printf(o, f, (int64_t) (v * 4294967297ll), z); case 2: return json_printf(o, f, (uint64_t) v, z); case 3: return json_printf(o, f, (size_t) v, z); case 4: return json_printf(o, f, (int) (v & 1), z); case 5: return json_printf(o, f, s, z); case 6: return json_printf(o, f, 2, s, z); case 7: return json_printf(o, f, (char *) NULL, z); case 8: return json_printf(o, f, s, z); case 9: return json_printf(o, f, (long) (int) v, z); case 10: return json_printf(o, f, s[0], z); case 11: return json_printf(o, f, z); case 12: return json_printf(o, f, pm, (int) v, s, z); default: return json_printf(o, f, 2, s, z); } }
void H_print(void) {
  static const char *const SEP[] = { "", ",", " ", ":", "-", ".", "s", "]", "d", "7", "l", "*" }; int d = vs_choose(ND, "dir"), s = vs_choose(12, "sep"), pre = vs_choose(3, "pre"), sz, l, k; int64_t v = IV[vs_choose(6, "val")]; char f[40], ref[160], big[160], txt[3], *h; int z; if (d == 5 || d == 6 || d == 7 || d == 8 || d == 10 || d == 11 || d == 13) vs_assume(v == 0);
  strcpy(txt, "\xa7z"); if (d != 13) { vs_sym(txt, 2, "txt"); vs_assume((txt[0] >= ' ') & (txt[0] < 127) & (txt[0] != '\\') & (txt[1] >= ' ') & (txt[1] < 127) & (txt[1] != '\\')); } txt[2] = 0; z = vs_choose(2, "z") ? -40 : 5;
  strcpy(f, pre == 0 ? "" : pre == 1 ? "{key_1 : " : "["); strcat(f, DF[d]); strcat(f, SEP[s]); strcat(f, "%d"); if (pre == 1) strcat(f, "}");
  rp = ref; rput(pre == 0 ? "" : pre == 1 ? "{\"key_1\" : " : "["); refd(d, v, txt); if (s == 6 || s == 8 || s == 10) { rput("\""); rput(SEP[s]); rput("\""); } else rput(SEP[s]); rnum(z, 0); if (pre == 1) rput("}"); *rp = 0; k = rp - ref;
  { struct json_out o = JSON_OUT_BUF(big, sizeof big); l = prd(&o, d, f, v, txt, z); CHECK(l == k && h_bytes_eq(big, ref, k + 1), "text"); } vs_reach("end");
  if (pre == 2 || s > 3) return;
  sz = vs_choose(6, "size"); sz = sz < 3 ? sz : sz == 3 ? k - 1 : sz == 4 ? k : k + 1; if (sz < 0) sz = 0; h = (char *) malloc(sz ? sz : 1); { struct json_out o = JSON_OUT_BUF(h, sz); l = prd(&o, d, f, v, txt, z); CHECK(l == k, "full length"); if (sz) { int w = k < sz ? k : sz - 1; CHECK(h_bytes_eq(h, ref, w) && h[w] == 0, "truncated"); } } free(h);
  { char *a = d == 8 ? json_asprintf(f, txt, z) : d == 0 ? json_asprintf(f, (int) v, z) : 0; if (a) { CHECK(h_bytes_eq(a, ref, k + 1), "allocated"); free(a); } } }
/* long strings and arrays */
void H_print_long(void) { static const int L[] = { 0, 1, 19, 20, 21, 22, 40, 300 }; static char s[301], ref[400], out[400]; int l = L[vs_choose(8, "len")], i, how = vs_choose(3, "how"), n; struct json_out o = JSON_OUT_BUF(out, sizeof out); memset(s, 'w', 300); s[l] = 0; if (l) { vs_sym(s + l - 1, 1, "c"); vs_assume((s[l - 1] > ' ') & (s[l - 1] < 127) & (s[l - 1] != '"') & (s[l - 1] != '\\')); }
  rp = ref; rput(how == 1 ? "[\"" : "["); for (i = 0; i < l; i++) *rp++ = s[i]; rput(how == 1 ? "\",4]" : ",4]"); *rp = 0; n = how == 0 ? json_printf(&o, "[%s,%d]", s, 4) : how == 1 ? json_printf(&o, "[%Q,%d]", s, 4) : json_printf(&o, "[%.*s,%d]", l, s, 4); if (how == 2 && !l) { vs_reach("end"); return; } CHECK(n == rp - ref && !strcmp(out, ref), "text"); { char *a = how == 1 ? json_asprintf("[%Q,%d]", s, 4) : json_asprintf("[%s,%d]", s, 4); CHECK(!strcmp(a, ref), "allocated"); free(a); } vs_reach("end"); }
void H_print_arr(void) { int n = vs_choose(4, "n"), w = vs_choose(2, "w"), i, l; char out[80], ref[80]; struct json_out o = JSON_OUT_BUF(out, sizeof out); int a[3]; int64_t b[3]; for (i = 0; i < 3; i++) { a[i] = (int) IV[vs_choose(6, "val")]; b[i] = a[i]; } rp = ref; rput("{\"a\":["); for (i = 0; i < n; i++) { if (i) rput(", "); rnum(a[i], 0); } rput("]}"); *rp = 0; l = w ? json_printf(&o, "{a:%M}", json_printf_array, b, sizeof(b[0]) * n, sizeof(b[0]), "%lld") : json_printf(&o, "{a:%M}", json_printf_array, a, sizeof(a[0]) * n, sizeof(a[0]), "%d"); CHECK(l == rp - ref && !strcmp(out, ref), "array"); vs_reach("end"); }
/* pretty-printing changes only white space */
static int squeeze(const char *s, int n, char *d) { int i, k = 0, in = 0; for (i = 0; i < n; i++) { if (in) { d[k++] = s[i]; if (s[i] == '\\') d[k++] = s[++i]; else if (s[i] == '"') in = 0; } else if (s[i] == '"') { in = 1; d[k++] = '"'; } else if (s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r') d[k++] = s[i]; } return k; }
static void pretty(const char *s, int n) { static char out[2000], a[500], b[500], out2[2000]; struct json_out o = JSON_OUT_BUF(out, sizeof out), o2 = JSON_OUT_BUF(out2, sizeof out2); int r, k, j; char *x = (char *) malloc(n ? n : 1); memcpy(x, s, n); if (json(x, n) != VALID) vs_exit(); memset(out, 0, sizeof out); memset(out2, 0, sizeof out2); r = json_prettify(x, n, &o); CHECK(r > 0 && r <= n, "accepted"); k = squeeze(x, n, a); j = squeeze(out, strlen(out), b); CHECK(j == k && h_bytes_eq(a, b, k), "same text but for white space"); r = json_prettify(out, strlen(out), &o2); CHECK(r > 0 && !strcmp(out, out2), "stable"); free(x); vs_reach("end"); }
void H_pretty_gram(void) { char b[400]; int n; P = b; T = b; budget = BUD; nk = 0; gen(2); n = P - b; CHECK(n < 400, "model: size"); pretty(b, n); }
void H_pretty_tmpl(void) { char b[100]; int n = expand(TM[vs_choose((int) (sizeof(TM) / sizeof(*TM)), "t")], b); pretty(b, n); }
/* iterating */
#ifndef NN
#define NN 2
#endif
void H_next(void) {
  int w = vs_choose(3, "where"), arr = vs_choose(2, "array"), n = vs_choose(NN + 1, "n"), i, k = 0, st[3], ln[3], ks[3], kl[3], idx; char b[200], *x; const char *path = w == 0 ? "" : w == 1 ? ".m" : ".l[1]"; struct json_token key, val; void *h = NULL; P = b; T = b; vn = 0; put(w == 0 ? "" : w == 1 ? "{\"mm\":{\"q\":1},\"m\":" : "{\"k\":[3],\"l\":[[9,8], "); put(arr ? "[" : "{"); sp();
  for (i = 0; i < n; i++) { if (i) put(", "); if (!arr) { *P++ = '"'; ks[k] = P - T; kl[k] = vs_choose(3, "kl"); vs_sym(P, kl[k], "key"); { int j; for (j = 0; j < kl[k]; j++) vs_assume((P[j] >= 'a') & (P[j] <= 'z')); } P += kl[k]; put("\": "); } { int o = vn; if (vn >= 5) vn = 4; (void) o; } scal(i == 0 ? 9 : 5); st[k] = vstart[vn - 1]; ln[k] = vlen[vn - 1]; k++; }
  put(arr ? "]" : "}"); put(w == 0 ? "" : w == 1 ? ",\"n\":{\"m\":1}}" : ",[7]],\"z\":0}"); CHECK(P - T < 200, "model: size"); x = (char *) malloc(P - T); memcpy(x, T, P - T);
  for (i = 0; i <= n; i++) { idx = -7; h = arr ? json_next_elem(x, P - T, h, path, &idx, &val) : json_next_key(x, P - T, h, path, &key, &val); if (i == n) { CHECK(h == NULL, "ends"); break; } CHECK(h != NULL && val.ptr == x + st[i] && val.len == ln[i], "value"); if (arr) CHECK(idx == i, "index"); else CHECK(key.ptr == x + ks[i] && key.len == kl[i], "key"); }
  free(x); vs_reach("end"); }
/* names longer than the paths the library keeps */
void H_pretty_long(void) { static const int L[] = { 1, 200, 250, 251, 252, 253, 254, 255, 256, 300 }; static char b[400]; int l = L[vs_choose(10, "len")], n = 0, i; b[n++] = '{'; b[n++] = '"'; for (i = 0; i < l; i++) b[n++] = 'k'; vs_sym(b + 1 + l, 1, "c"); vs_assume((b[1 + l] > 32) & (b[1 + l] < 127) & (b[1 + l] != '"') & (b[1 + l] != '\\')); memcpy(b + n, "\":[{\"x\":[1,[2]],\"y]\":2},[]],\"z\":3}", sizeof("\":[{\"x\":[1,[2]],\"y]\":2},[]],\"z\":3}")); n += strlen(b + n); pretty(b, n); }
