#include "eng.h"
/* C22: literals and conversions. References are computed here with C arithmetic, never by the engine. */
static void eval(const char *lit, double want, int k) { static const char *const A[] = { "", "-", "let r = ", "[", "({a:", "(function(q){return q;})(", "(", "true?", "  /*1*/", "let o={a:1};o.a=", "0,", "1||0;" }, *const Z[] = { "", "", ";r", ",1][0]", "}).a", ")", ")", ":9", "//9", ";o.a", "", "" }; struct mjs *m = h_new(); char b[160], *s; mjs_val_t v; size_t n; strcpy(b, A[k]); strcat(b, lit); strcat(b, Z[k]); n = strlen(b); s = (char *) malloc(n + 1); memcpy(s, b, n + 1); v = h_ok(m, s); CHECK(mjs_is_number(v), "a number"); CHECK(d2u(mjs_get_double(m, v)) == d2u(k == 1 ? -want : want), "the value of the literal"); free(s); mjs_destroy(m); }
/* decimal integers: a prefix, then two arbitrary digits */
#ifndef ND
#define ND 2
#endif
void H_num_int(void) { static const char *const P[] = { "", "1", "98", "327", "21474836", "42949672", "9007199254740", "1234567890" }; static const uint64_t V[] = { 0, 1, 98, 327, 21474836, 42949672, 9007199254740ull, 1234567890 }; int p = vs_choose(8, "prefix"), k = vs_choose(12, "context"), i; char b[40]; unsigned char c[ND]; uint64_t v = V[p]; size_t n; strcpy(b, P[p]); n = strlen(b); vs_sym(c, ND, "digits"); for (i = 0; i < ND; i++) { vs_assume((c[i] >= '0') & (c[i] <= '9')); b[n + i] = c[i]; v = v * 10 + (c[i] & 15); } b[n + ND] = 0; if (k == 1) vs_assume(v != 0); eval(b, (double) v, k); vs_reach("end"); }
void H_num_hex(void) { static const int KS[] = { 0, 1, 3, 8 }; static const char *const P[] = { "", "7", "f", "7fFF", "80000", "FFFFFF", "ffffffff", "1fffffffffff" }; static const uint64_t V[] = { 0, 7, 15, 0x7fff, 0x80000, 0xffffff, 0xffffffff, 0x1fffffffffff }; int p = vs_choose(8, "prefix"), k = KS[vs_choose(4, "context")], i, kd; char b[40]; unsigned char c[2]; uint64_t v = V[p]; size_t n; strcpy(b, "0x"); strcat(b, P[p]); n = strlen(b); vs_sym(c, 2, "digits"); for (i = 0; i < 2; i++) { kd = vs_choose(3, "kind"); if (kd == 0) vs_assume((c[i] >= '0') & (c[i] <= '9')); else if (kd == 1) vs_assume((c[i] >= 'a') & (c[i] <= 'f')); else vs_assume((c[i] >= 'A') & (c[i] <= 'F')); b[n + i] = c[i]; v = v * 16 + (kd == 0 ? c[i] & 15 : (c[i] & 7) + 9); } b[n + 2] = 0; if (k == 1) vs_assume(v != 0); eval(b, (double) v, k); vs_reach("end"); }
/* fractions and exponents: all digits before the mark are one integer, scaled by an exact power of ten */
void H_num_frac(void) { static const struct { const char *a, *z; uint64_t v; int e; } T[] = { { "0.", "", 0, -2 }, { "12.", "", 12, -2 }, { "0.00", "", 0, -4 }, { "3.14159", "", 314159, -7 }, { "", "e3", 0, 3 }, { "1.", "e1", 1, -1 }, { "7", "e-2", 7, -2 }, { "7", "E+5", 7, 5 }, { "99.", "e-20", 99, -22 }, { "0.1", "e22", 1, 19 }, { "4", ".5", 4, -1 }, { "123456.", "E2", 123456, 0 } }; static const double P10[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 }; int t = vs_choose(12, "form"), k = vs_choose(12, "context"), d = vs_choose(100, "digits"); char b[40]; size_t n; uint64_t v; double w; strcpy(b, T[t].a); n = strlen(b); b[n] = '0' + d / 10; b[n + 1] = '0' + d % 10; b[n + 2] = 0; strcat(b, T[t].z); v = T[t].v * 100 + d; if (t == 10) v = v * 10 + 5; w = T[t].e < 0 ? (double) v / P10[-T[t].e] : (double) v * P10[T[t].e]; vs_assume(k == 0 || k == 1 || d % 7 == 5); eval(b, w, k); vs_reach("end"); }
/* notable literals, value as the C compiler reads them */
#define L(x) { #x, (double) (x) }
static const struct { const char *s; double v; } LIT[] = { L(0), L(1), L(127), L(128), L(255), L(256), L(16383), L(16384), L(2147483647), L(2147483648), L(4294967295), L(4294967296), L(9007199254740991), L(9007199254740992), L(9007199254740993), L(9007199254740994), L(4503599627370497), L(9223372036854774784), L(9223372036854775807), L(9223372036854775808.), { "9223372036854775808", 9223372036854775808. }, { "9223372036854775809", 9223372036854775808. }, { "18446744073709551615", 18446744073709551615. }, { "18446744073709551616", 18446744073709551616. }, { "123456789012345678901234567890", 123456789012345678901234567890. }, L(0.5), L(0.1), L(0.2), L(0.30000000000000004), L(3.141592653589793), L(1e21), L(1e22), L(1e23), L(1e300), L(1.7976931348623157e308), L(2.2250738585072014e-308), L(5e-324), L(1e-7), L(4.35), L(0.000001), L(123456.789), L(1.5e3), L(2.5e-3), L(12e0), { "1e400", __builtin_inf() }, { "1e-400", 0 }, { "0x0", 0 }, L(0xff), L(0xFF), L(0xdeadBEEF), L(0xffffffff), L(0x7fffffffffffffff), L(0x8000000000000000), L(0xffffffffffffffff), L(0x1fffffffffffff), L(0x20000000000001), { "007", 7 }, { "00", 0 }, { "0.0", 0 }, { "100000000000000000000", 1e20 }, { "0.1e1", 1 }, { "1.0", 1 }, { "1.", 1 } };
void H_num_list(void) { int i = vs_choose(sizeof LIT / sizeof LIT[0], "literal"), k = vs_choose(12, "context"); if (k == 1) vs_assume(LIT[i].v != 0); eval(LIT[i].s, LIT[i].v, k); vs_reach("end"); }
/* integer -> text, by every route, and back */
static const int64_t B[] = { 0, 1000, 32768, 99950, 2147483648ll, 4294967296ll, 99999999990ll, 9007199254740860ll, -1000, -32768, -2147483648ll, -4294967296ll, -999999999990ll, -9007199254740860ll, 281474976710656ll };
static int ref(int64_t v, char *o) { char t[24]; int n = 0, l = 0; uint64_t u = v < 0 ? 0 - (uint64_t) v : (uint64_t) v; do t[n++] = '0' + u % 10; while (u /= 10); if (v < 0) o[l++] = '-'; while (n) o[l++] = t[--n]; o[l] = 0; return l; }
void H_num_str(void) { struct mjs *m = h_new(); int64_t v = B[vs_choose(15, "base")]; int8_t d; char w[48]; int n, k = vs_choose(6, "route"); mjs_val_t r = MJS_UNDEFINED; vs_sym(&d, 1, "d"); v += d; n = ref(v, w); h_setn(m, "x", (double) v);
  switch (k) { case 0: r = h_ok(m, "JSON.stringify({a:[x]})"); memmove(w + 6, w, n); memcpy(w, "{\"a\":[", 6); memcpy(w + 6 + n, "]}", 2); n += 8; break; case 1: r = h_ok(m, "let o={};o[x]=1;let r='?';for(let i in o)r=i;r"); break; case 2: r = h_ok(m, "JSON.stringify(x)"); break;
    case 3: { char o[40]; size_t z = n + 1 + vs_choose(3, "spare"); mjs_val_t xv = h_get(m, "x"); memset(o, '~', sizeof o); mjs_sprintf(xv, m, o, z); CHECK(h_bytes_eq(o, w, n + 1), "printed digits"); CHECK(o[z] == '~', "inside the buffer"); goto end; }
    case 4: { mjs_val_t ob = mjs_mk_object(m); mjs_set(m, mjs_get_global(m), "q", 1, ob); mjs_set(m, ob, w, n, mjs_mk_number(m, 7)); r = h_ok(m, "q[x]"); CHECK(r == mjs_mk_number(m, 7), "found under its digits"); goto end; }
    default: r = h_ok(m, "JSON.parse(JSON.stringify(x))===x"); CHECK(r == mjs_mk_boolean(m, 1), "parses back"); goto end; }
  CHECK(h_streq(m, r, w, n), "decimal digits");
end: mjs_destroy(m); vs_reach("end"); }
/* string literals: quote, up to NB arbitrary bytes, quote */
#ifndef NB
#define NB 6
#endif
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void str_check(const char *pre, const unsigned char *b, int n, int q, const char *post, int k) { struct mjs *m = h_new(); unsigned char w[64]; char *s; int i, l = 0, o; mjs_val_t v;
  for (i = 0; i < n; i++) { int c = b[i]; vs_assume(c != 0 && c != q); if (c != '\\') { w[l++] = c; continue; } vs_assume(i + 1 < n); c = b[++i]; if (c == 'b') w[l++] = 8; else if (c == 't') w[l++] = 9; else if (c == 'n') w[l++] = 10; else if (c == 'v') w[l++] = 11; else if (c == 'f') w[l++] = 12; else if (c == 'r') w[l++] = 13; else if (c == '\\') w[l++] = '\\'; else if (c == q) w[l++] = q; else if (c == '\'' || c == '"') w[l++] = c; else if (c == 'x') { vs_assume(i + 2 < n && hx(b[i + 1]) >= 0 && hx(b[i + 2]) >= 0); w[l++] = hx(b[i + 1]) * 16 + hx(b[i + 2]); i += 2; } else if (c == 'u') { vs_assume(i + 4 < n && b[i + 1] == '0' && b[i + 2] == '0' && hx(b[i + 3]) >= 0 && hx(b[i + 4]) >= 0); w[l++] = hx(b[i + 3]) * 16 + hx(b[i + 4]); i += 4; } else vs_assume(0); }
  s = (char *) malloc(strlen(pre) + n + 3 + strlen(post)); o = strlen(pre); memcpy(s, pre, o); s[o++] = q; memcpy(s + o, b, n); o += n; s[o++] = q; strcpy(s + o, post); v = h_ok(m, s);
  if (k) CHECK(v == mjs_mk_number(m, 5), "property under the name written"); else CHECK(h_streq(m, v, (char *) w, l), "the bytes written"); free(s); mjs_destroy(m); vs_reach("end"); }
void H_str_raw(void) { unsigned char b[NB]; int n = vs_choose(NB + 1, "n"), q = vs_choose(2, "quote") ? '"' : '\''; vs_sym(b, n, "b"); str_check("", b, n, q, "", 0); }
/* escapes among other text, of any length class (inlined, 5 bytes, owned) */
void H_str_esc(void) { static const char *const F[] = { "", "a", "xyz", "abcdefghij", "\\\\", "\\n\\t" }; unsigned char b[40]; int n = 0, i, k = vs_choose(3, "kind"), x = vs_choose(6, "before"), y = vs_choose(6, "after"), q = vs_choose(2, "quote") ? '"' : '\'', c = vs_choose(3, "context"); strcpy((char *) b, F[x]); n = strlen((char *) b); b[n++] = '\\'; if (k == 0) { vs_sym(b + n, 1, "e"); vs_assume(b[n] != 'x' && b[n] != 'u'); n++; } else { int h0; if (k == 1) b[n++] = 'x'; else { b[n++] = 'u'; b[n++] = '0'; b[n++] = '0'; } h0 = n; vs_sym(b + n, 2, "h"); n += 2; for (i = 0; i < 2; i++) vs_assume(((b[h0 + i] >= '0') & (b[h0 + i] <= '9')) | ((b[h0 + i] >= 'a') & (b[h0 + i] <= 'f')) | ((b[h0 + i] >= 'A') & (b[h0 + i] <= 'F'))); } strcpy((char *) b + n, F[y]); n = strlen((char *) b); if (c == 0) str_check("", b, n, q, "", 0); else if (c == 1) str_check("let s=", b, n, q, ";s", 0); else str_check("[1,", b, n, q, "][1]", 0); }
