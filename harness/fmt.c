#include "eng.h"
/* C19: bounded formatting. Reference: what standard C prescribes, computed here; buffers are exactly as large as announced. */
static char ref[400]; static int rn;
static void rc(int c) { ref[rn++] = c; ref[rn] = 0; }
static void rs_(const char *s, int n) { while (n--) rc(*s++); }
static void rnum(uint64_t u, int neg, int base, int zero, int width) { char t[24]; int n = 0, w; do { t[n++] = "0123456789abcdef"[u % base]; u /= base; } while (u); w = width - n - neg; if (!zero) while (w-- > 0) rc(' '); if (neg) rc('-'); if (zero) while (w-- > 0) rc('0'); while (n) rc(t[--n]); }
static int call(char *b, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = c_vsnprintf(b, n, f, ap); va_end(ap); return r; }
#define JUDGE(CALL) do { static const int D_[] = { 0, 1, 2, 3 }; int z_ = vs_choose(8, "size"), r_; size_t sz = z_ < 4 ? (size_t) D_[z_] : (size_t) (rn + z_ - 6 < 0 ? 0 : rn + z_ - 6); char *b = (char *) malloc(sz ? sz : 1); memset(b, '~', sz ? sz : 1); r_ = CALL; CHECK(r_ == rn, "length of the whole text"); if (sz) { int w_ = rn < (int) sz ? rn : (int) sz - 1; CHECK(h_bytes_eq(b, ref, w_), "text"); CHECK(b[w_] == 0, "terminated"); } else CHECK(b[0] == '~', "nothing written"); free(b); vs_reach("end"); } while (0)
static const int64_t B[] = { 0, 1000, 32767, 99999, 2147483520ll, 4294967290ll, 9999999999ll, 999999999999999999ll, 9223372036854775679ll, -200, -100000, -2147483520ll, -4294967295ll, -99999999999ll, -9223372036854775680ll };
static const int W[] = { 0, 1, 3, 12, 22 };
void H_fmt_num(void) {
  static const char *const C[] = { "d", "ld", "lld", "u", "lu", "zu", "x", "lx", "zx" }; int c = vs_choose(9, "conv"), z = vs_choose(2, "zero"), w = W[vs_choose(5, "width")], how = vs_choose(3, "how"); char f[40], num[8]; int64_t v; int8_t d; uint64_t u; int neg;
  v = B[vs_choose(15, "base")]; vs_sym(&d, 1, "d"); v += d; if (z && !w) z = 0; if (c == 0 || c == 3 || c == 6) v = c ? (int64_t) (uint32_t) v : (int64_t) (int32_t) v; neg = c < 3 && v < 0; u = neg ? 0 - (uint64_t) v : (uint64_t) v;
  strcpy(f, how ? "<%" : "%"); if (z) strcat(f, "0"); if (w) { if (how == 2) strcat(f, "*"); else { int k = 0; if (w > 9) num[k++] = '0' + w / 10; num[k++] = '0' + w % 10; num[k] = 0; strcat(f, num); } } strcat(f, C[c]); if (how) strcat(f, ">-");
  rn = 0; if (how) rc('<'); rnum(u, neg, c < 6 ? 10 : 16, z, w); if (how) { rc('>'); rc('-'); }
  JUDGE(how == 2 && w ? (c == 0 || c == 3 || c == 6 ? call(b, sz, f, w, (int) v) : call(b, sz, f, w, (long) v)) : (c == 0 || c == 3 || c == 6 ? call(b, sz, f, (int) v) : call(b, sz, f, (long) v))); }
/* strings: any bytes; with a precision, the string need not be terminated */
#ifndef SL
#define SL 4
#endif
void H_fmt_str(void) {
  static const char *const F[] = { "%s", "[%s]%d", "%5s", "%.2s", "%.3s|", "%.*s", "%.*s%s", "%4.2s", "%*s", "%6.*s", "%c%s", "%s%s" }; int k = vs_choose(12, "fmt"), n = vs_choose(SL + 1, "n"), p, l, w = 0, i, term; char *s; p = k == 3 || k == 7 ? 2 : k == 4 ? 3 : k == 5 || k == 6 || k == 9 ? 1 + vs_choose(SL + 1, "prec") : -1; term = p < 0 || p > n ? 1 : vs_choose(2, "terminated"); s = (char *) malloc(n + term ? n + term : 1); vs_sym(s, n, "s"); for (i = 0; i < n; i++) vs_assume(s[i] != 0); if (term) s[n] = 0; l = p >= 0 && p < n ? p : n; if (k == 2) w = 5; if (k == 7) w = 4; if (k == 8) w = vs_choose(4, "width") * 2; if (k == 9) w = 6;
  rn = 0; if (k == 1) rc('['); if (k == 10) rc('x'); for (i = l; i < w; i++) rc(' '); rs_(s, l); if (k == 1) { rc(']'); rc('-'); rc('7'); } if (k == 4) rc('|'); if (k == 6 || k == 11) rs_("yz", 2);
  switch (k) { case 1: JUDGE(call(b, sz, F[k], s, -7)); break; case 5: case 9: JUDGE(call(b, sz, F[k], p, s)); break; case 6: JUDGE(call(b, sz, F[k], p, s, "yz")); break; case 8: JUDGE(call(b, sz, F[k], w, s)); break; case 10: JUDGE(call(b, sz, F[k], 'x', s)); break; case 11: JUDGE(call(b, sz, F[k], s, "yz")); break; default: JUDGE(call(b, sz, F[k], s)); } free(s); }
void H_fmt_hex(void) { uint32_t v; int up = vs_choose(2, "w"), i, n = 8; vs_sym(&v, 4, "v"); while (n > 1 && !(v >> (4 * n - 4))) n--; { char b[24]; int r = up ? c_snprintf(b, sizeof b, "%012x", v) : c_snprintf(b, sizeof b, "%x", v), o = up ? 12 - n : 0; CHECK(r == n + o && b[r] == 0, "length"); for (i = 0; i < o; i++) CHECK(b[i] == '0', "padding"); for (i = 0; i < n; i++) { int q = v >> (4 * (n - 1 - i)) & 15; CHECK(b[o + i] == (q < 10 ? '0' + q : 'a' + q - 10), "digit"); } } vs_reach("end"); }
void H_fmt_ptr(void) { uint64_t v; int i, n = 12; char b[24], *s = b; int r; { static const uint64_t HI[] = { 0, 0x1000000000ull, 0x7fa0900000000ull >> 4, 0xa00000000000ull, 0xfff0000000000ull >> 4 }; uint32_t lo; vs_sym(&lo, 4, "lo"); lo &= 0xffffff; v = HI[vs_choose(5, "hi")] | lo; } while (n > 1 && !(v >> (4 * n - 4))) n--; r = c_snprintf(s, sizeof b, "%p!", (void *) (uintptr_t) v); CHECK(r == n + 3 && b[0] == '0' && b[1] == 'x' && b[r] == 0 && b[r - 1] == '!', "length"); for (i = 0; i < n; i++) { int q = v >> (4 * (n - 1 - i)) & 15; CHECK(b[2 + i] == (q < 10 ? '0' + q : 'a' + q - 10), "digit"); } vs_reach("end"); }
/* growing output: the given buffer is used when the text fits, else a new one is made; the text is complete */
void H_fmt_grow(void) { static const int L[] = { 0, 1, 2, 3, 7, 8, 9, 50 }; char sm[8], *p = sm, s[60]; int l = L[vs_choose(8, "len")], size = vs_choose(9, "size"), r, how = vs_choose(2, "how"); memset(s, 'g', 60); s[l] = 0; if (l) { vs_sym(s + l - 1, 1, "c"); vs_assume(s[l - 1] != 0); } if (how) { vs_assume(l < 50); r = mg_asprintf(&p, size, "%s%s%d", s, s, 42); CHECK(r == 2 * l + 2, "length"); CHECK(h_bytes_eq(p, s, l) && h_bytes_eq(p + l, s, l) && !strcmp(p + 2 * l, "42"), "text"); } else { r = mg_asprintf(&p, size, "%s", s); CHECK(r == l, "length"); CHECK(h_bytes_eq(p, s, l + 1), "text"); } CHECK((p == sm) == (r < size), "buffer used when it is large enough"); if (p != sm) free(p); vs_reach("end"); }
