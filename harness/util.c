#include "eng.h"
#include "cap.h"
#include "common/str_util.h"
#include "common/mg_str.h"
#include "common/cs_dbg.h"
/* C28: text utilities and logging against direct definitions */
#ifndef UL
#define UL 3
#endif
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char *blk(const char *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
static char *cstr(int max, const char *nm, const char *nl, int *n) { char *p; int i; *n = vs_choose(max + 1, nl); p = malloc(*n + 1); vs_sym(p, *n, nm); for (i = 0; i < *n; i++) vs_assume(p[i] != 0); p[*n] = 0; return p; }
void H_u_strnstr(void) { int n = vs_choose(UL + 2, "n"), fn, i, j; char *s = malloc(n ? n : 1), *f; const char *r, *w = NULL; vs_sym(s, n, "s"); f = cstr(2, "f", "fn", &fn); for (i = 0; i + fn <= n && i < n && !w; i++) { for (j = 0; j < fn && s[i + j] == f[j]; j++) ; if (j == fn) w = s + i; } r = c_strnstr(s, f, n); if (n == 0 && fn == 0) CHECK(r == NULL || r == s, "nothing in nothing"); else CHECK(r == w, "the first occurrence"); free(s); free(f); vs_reach("end"); }
void H_u_strnlen(void) { int n = vs_choose(UL + 2, "n"), i, term = vs_choose(2, "term"); char *s = malloc(n + term ? n + term : 1); vs_sym(s, n, "s"); if (term) s[n] = 0; for (i = 0; i < n && s[i]; i++) ; CHECK(c_strnlen(s, n + (term ? 5 : 0)) == (size_t) i, "the length"); free(s); vs_reach("end"); }
void H_u_hex(void) { int n = vs_choose(UL, "n"), i; uint8_t *s = malloc(n ? n : 1); char *t = malloc(2 * n + 1), *u = malloc(n + 1); vs_sym(s, n, "s"); cs_to_hex(t, s, n); for (i = 0; i < n; i++) CHECK((t[2 * i] == "0123456789abcdef"[s[i] >> 4]) & (t[2 * i + 1] == "0123456789abcdef"[s[i] & 15]), "two digits for each byte"); CHECK(t[2 * n] == 0, "terminated"); if (vs_choose(2, "upper")) for (i = 0; i < 2 * n; i++) t[i] = t[i] >= 'a' && t[i] <= 'f' ? t[i] - 32 : t[i]; cs_from_hex(u, t, 2 * n); CHECK(h_bytes_eq(u, (char *) s, n), "and back"); CHECK(u[n] == 0, "terminated"); free(s); free(t); free(u); vs_reach("end"); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
void H_u_case(void) { int an, bn, i, d = 0, r, len = vs_choose(UL + 3, "len"); char *a = cstr(UL, "a", "an", &an), *b = cstr(UL, "b", "bn", &bn); r = len == UL + 2 ? mg_casecmp(a, b) : mg_ncasecmp(a, b, len); for (i = 0; i < (len == UL + 2 ? 100 : len); i++) { d = lo((unsigned char) a[i]) - lo((unsigned char) b[i]); if (d || !a[i]) break; } CHECK(sgn(r) == sgn(d), "the order of the first difference, letters in either case alike"); free(a); free(b); vs_reach("end"); }
/* comma separated lists */
void H_u_list(void) { int n, i = 0, rounds = 0, eqs = vs_choose(2, "eq"), how = vs_choose(2, "how"); char *s = cstr(UL + 2, "s", "n", &n), *c = how ? s : blk(s, n); struct mg_str l = mg_mk_str_n(c, n), v = { NULL, 0 }, e = { NULL, 0 };
  while (i < n) { int z = i, q; const char *p = how ? mg_next_comma_list_entry(l.p, &v, eqs ? &e : NULL) : (l = mg_next_comma_list_entry_n(l, &v, eqs ? &e : NULL)).p; if (how) l.p = p; CHECK(p != NULL, "one more entry"); while (z < n && s[z] != ',') z++; for (q = i; q < z && s[q] != '='; q++) ; if (!eqs) q = z; CHECK(v.p == c + i && v.len == (size_t) (q - i), "the name, where it stands"); if (eqs) { CHECK(e.len == (size_t) (q < z ? z - q - 1 : 0), "the length of the value"); CHECK(q == z || e.p == c + q + 1, "the value, where it stands"); } i = z + 1; rounds++; }
  { const char *p = how ? mg_next_comma_list_entry(l.p, &v, NULL) : mg_next_comma_list_entry_n(l, &v, NULL).p; CHECK(p == NULL, "no more entries"); } if (!how) free(c); free(s); vs_reach("end"); if (rounds > 1) vs_reach("several"); }
/* glob patterns: the set of lengths which the pattern matches, bit by bit */
static unsigned ends(const char *p, int pn, const char *s, int sn) { unsigned r = 0; int k; if (pn == 0) return 1; if (*p == '*') { int two = pn > 1 && p[1] == '*'; for (k = 0; k <= sn; k++) { r |= ends(p + 1 + two, pn - 1 - two, s + k, sn - k) << k; if (k < sn && !two && s[k] == '/') break; } return r; } if (sn == 0) return 0; if (*p == '?' ? *s != '/' : lo((unsigned char) *p) == lo((unsigned char) *s)) return ends(p + 1, pn - 1, s + 1, sn - 1) << 1; return 0; }
void H_u_glob(void) { int pn = vs_choose(UL + 1, "pn"), sn = vs_choose(UL + 1, "sn"), i, b = 0, how = vs_choose(2, "how"); char *p = malloc(pn ? pn : 1), *s = malloc(sn + 1), *x; size_t r; unsigned w = 0; vs_sym(p, pn, "p"); vs_sym(s, sn, "s"); for (i = 0; i < pn; i++) { vs_assume(p[i] != '$'); if (i > 1) vs_assume(!(p[i] == '*' && p[i - 1] == '*' && p[i - 2] == '*')); } for (i = 0; i < sn; i++) vs_assume(s[i] != 0); s[sn] = 0; x = how ? s : blk(s, sn);
  for (i = 0; i <= pn; i++) if (i == pn || p[i] == '|' || p[i] == ',') { w |= ends(p + b, i - b, s, sn); b = i + 1; }
  r = how ? mg_match_prefix(p, pn, x) : mg_match_prefix_n(mg_mk_str_n(p, pn), mg_mk_str_n(x, sn)); CHECK(r <= (size_t) sn, "no more than the string"); if (r) CHECK((w >> r & 1) != 0, "so many bytes match the pattern"); else CHECK(w >> 1 == 0, "a match is found"); if (!how) free(x); free(s); free(p); vs_reach("end"); if (r) vs_reach("match"); }
void H_u_globdoc(void) { static const struct { const char *p, *s; size_t r; } T[] = { { "a*f", "abcdefgh", 6 }, { "a*f", "abcdexgh", 0 }, { "a*f|de*,xy", "defgh", 5 }, { "?*", "abc", 3 }, { "?*", "", 0 } }; int i = vs_choose(5, "i"); CHECK(mg_match_prefix(T[i].p, strlen(T[i].p), T[i].s) == T[i].r, "as documented"); vs_reach("end"); }
/* logging: the level of the first entry which is a prefix of what is printed, or the level set */
void H_u_log(void) { static const char *const FN[] = { "mjs.c", "src/mjs_core.c", "a\\b.c", "/very/long/path/to/a_file_with_a_long_name.c" }, *const BN[] = { "mjs.c", "mjs_core.c", "b.c", "a_file_with_a_long_name.c" }, *const FL[] = { NULL, "mjs.c:=4", "mjs.c=1,mjs=3,=0", "mjs_core.c:12=2,=1", "x=4", "=3", "" , "b.c,b.c=4" }; static const int LN[] = { 0, 7, 12, 120, 9999, 10000, 54321 }; int fi = vs_choose(4, "file"), li = vs_choose(7, "line"), lv = vs_choose(5, "level"), set = vs_choose(6, "set") - 1, fl = vs_choose(8, "filter"), tofile = vs_choose(2, "tofile"), on = set, r, keep, i; char pre[60], num[12]; const char *f; struct cap *c;
  snprintf(num, 12, ":%d", LN[li]); keep = strlen(BN[fi]); if (keep > 24 - 1 - (int) strlen(num)) keep = 24 - 1 - strlen(num); memcpy(pre, BN[fi], keep); strcpy(pre + keep, num);
  cs_log_set_level((enum cs_log_level) set); cs_log_set_file_level(FL[fl]); if (vs_choose(2, "reset")) { cs_log_set_file_level("=4"); cs_log_set_file_level(FL[fl]); } if (tofile) cs_log_set_file((FILE *) &FA);
  for (f = FL[fl]; f && *f;) { size_t n = strcspn(f, ","); const char *e = memchr(f, '=', n); if (e && e + 1 < f + n && !strncmp(f, pre, e - f) && (int) (e - f) <= (int) strlen(pre)) { on = e[1] - '0'; break; } f += n; if (*f) f++; }
  r = cs_log_print_prefix((enum cs_log_level) lv, FN[fi], LN[li]); CHECK(r == (lv <= on), "the level decides"); c = tofile ? &FA : &FERR; if (r) { CHECK(c->n >= strlen(pre) && !memcmp(c->b, pre, strlen(pre)), "the place"); for (i = strlen(pre); i < (int) c->n; i++) CHECK(c->b[i] == ' ', "and spaces"); i = c->n; cs_log_printf("%s=%d", "v", -3); CHECK(c->n == (size_t) i + 5 && !memcmp(c->b + i, "v=-3\n", 5), "the message on the line"); vs_reach("printed"); } else { CHECK(c->n == 0, "nothing is printed"); vs_reach("silent"); } CHECK(FOUT.n == 0 && FOTHER.n == 0 && (tofile ? FERR.n : FA.n) == 0, "no other file"); cs_log_set_file_level(NULL); CHECK(vs_live() == 0, "nothing leaks"); }
