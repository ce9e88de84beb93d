#include "h.h"
/* ---------------- varint ---------------- */
void H_varint_roundtrip(void) {
  uint64_t num, out = 0; vs_sym(&num, 8, "num");
  size_t need = cs_varint_llen(num), cap = (size_t) vs_choose(12, "cap"), l2 = 0, i;
  uint8_t *buf = malloc(cap ? cap : 1);
  size_t n = cs_varint_encode(num, buf, cap);
  CHECK(n == need, "varint length equals predicted length");
  CHECK(n >= 1 && n <= 10 && (n == 1 || (num >> (7 * (n - 1))) != 0) && (n == 10 || (num >> (7 * n)) == 0), "varint length is minimal");
  if (n <= cap) {
    bool ok = cs_varint_decode(buf, n, &out, &l2);
    CHECK(ok && out == num && l2 == n, "varint decode(encode(n)) == n");
    ok = cs_varint_decode(buf, cap, &out, &l2);
    CHECK(ok && out == num && l2 == n, "varint decode stops at the terminator");
    int li = 0; uint64_t u = cs_varint_decode_unsafe(buf, &li);
    CHECK(u == num && li == (int) n, "unsafe varint decode agrees");
    vs_reach("roundtrip");
  } else {
    CHECK(!cs_varint_decode(buf, cap, &out, &l2), "truncated varint is rejected");
    vs_reach("truncated");
  }
  for (i = 0; i < n && i < cap; i++) CHECK(((buf[i] & 0x80) != 0) == (i + 1 < n), "continuation bits");
  free(buf);
}
void H_varint_decode_any(void) {
  size_t cap = (size_t) vs_choose(12, "cap"), i, l = 0; uint8_t *buf = malloc(cap ? cap : 1); uint64_t v = 0, ref = 0; bool term = false; size_t rl = 0;
  if (cap) vs_sym(buf, cap, "bytes");
  bool ok = cs_varint_decode(buf, cap, &v, &l);
  for (i = 0; i < cap && i < 10; i++) { ref |= (uint64_t) (buf[i] & 0x7f) << (7 * i); rl = i + 1; if (!(buf[i] & 0x80)) { term = true; break; } }
  if (term) { CHECK(ok && v == ref && l == rl, "well-formed varint decodes to its value"); vs_reach("term"); }
  else if (cap < 10) { CHECK(!ok, "unterminated varint is rejected"); vs_reach("unterm"); }
  free(buf);
}
/* ---------------- mbuf ---------------- */
#ifndef MB_OPS
#define MB_OPS 3
#endif
void H_mbuf_model(void) {
  size_t live0 = vs_live(); struct mbuf m; unsigned char ref[64]; size_t rlen = 0, i; int op;
  mbuf_init(&m, (size_t) vs_choose(3, "cap0"));
  for (op = 0; op < MB_OPS; op++) {
    unsigned char d[4]; size_t n, off;
    switch (vs_choose(8, "op")) {
      case 0: n = (size_t) vs_choose(4, "n"); vs_sym(d, 4, "data"); CHECK(mbuf_append(&m, d, n) == n, "append returns count"); for (i = 0; i < n; i++) ref[rlen + i] = d[i]; rlen += n; break;
      case 1: n = (size_t) vs_choose(4, "n"); off = (size_t) vs_choose((int) rlen + 1, "off"); vs_sym(d, 4, "data"); CHECK(mbuf_insert(&m, off, d, n) == n, "insert returns count");
        memmove(ref + off + n, ref + off, rlen - off); for (i = 0; i < n; i++) ref[off + i] = d[i]; rlen += n; break;
      case 2: n = (size_t) vs_choose((int) rlen + 2, "n"); mbuf_remove(&m, n); if (n <= rlen) { memmove(ref, ref + n, rlen - n); rlen -= n; } break;
      case 3: n = (size_t) vs_choose(10, "n"); mbuf_resize(&m, n); break;
      case 4: mbuf_trim(&m); CHECK(m.size == m.len, "trim makes size equal len"); break;
      case 5: mbuf_clear(&m); rlen = 0; break;
      case 6: { struct mbuf t; mbuf_init(&t, 0); mbuf_move(&m, &t); CHECK(m.buf == NULL && m.len == 0 && m.size == 0, "move empties the source"); m = t; break; }
      case 7: { n = (size_t) vs_choose(3, "n"); char *h = malloc(3); vs_sym(h, 3, "data"); memcpy(d, h, 3); CHECK(mbuf_append_and_free(&m, h, n) == n, "append_and_free returns count"); for (i = 0; i < n; i++) ref[rlen + i] = d[i]; rlen += n; break; }
    }
    CHECK(m.len == rlen && m.size >= m.len, "mbuf length matches the model");
    CHECK(m.size == 0 || (m.buf != NULL && vs_readable(m.buf, m.size)), "mbuf capacity is really allocated");
    for (i = 0; i < rlen; i++) CHECK((unsigned char) m.buf[i] == ref[i], "mbuf content matches the model");
  }
  vs_reach("end"); mbuf_free(&m); CHECK(m.buf == NULL && m.len == 0 && m.size == 0, "freed mbuf is empty"); CHECK(vs_live() == live0, "mbuf leaks nothing");
}
/* growth: appending to / inserting into a long buffer keeps everything (head room policy) */
void H_mbuf_grow(void) {
  struct mbuf m; size_t n = (size_t) vs_choose(40, "n"), i, k; unsigned char c; vs_sym(&c, 1, "c"); mbuf_init(&m, 0);
  for (i = 0; i < n; i++) { unsigned char x = (unsigned char) (c + i * 7); mbuf_append(&m, &x, 1); }
  k = (size_t) vs_choose((int) n + 1, "off"); mbuf_insert(&m, k, "AB", 2);
  CHECK(m.len == n + 2, "grow length");
  for (i = 0; i < n; i++) CHECK((unsigned char) m.buf[i < k ? i : i + 2] == (unsigned char) (c + i * 7), "grow keeps content");
  CHECK(m.buf[k] == 'A' && m.buf[k + 1] == 'B', "grow inserted content"); mbuf_free(&m);
}
/* ---------------- mg_str ---------------- */
#ifndef MS
#define MS 3
#endif
static struct mg_str symstr(const char *nm, int max) { int n = vs_choose(max + 1, "len"); char *p = malloc(n ? n : 1); if (n) vs_sym(p, n, nm); return mg_mk_str_n(p, n); }
static int sgn(int x) { return (x > 0) - (x < 0); }
static int refcmp(const char *a, size_t al, const char *b, size_t bl, int fold) {
  size_t i; for (i = 0; i < al && i < bl; i++) { int x = a[i], y = b[i]; if (fold) { if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; } if (x != y) return (x > y) - (x < y); }
  return (al > bl) - (al < bl);
}
void H_mgstr_cmp(void) {
  struct mg_str a = symstr("a", MS), b = symstr("b", MS); size_t n = (size_t) vs_choose(MS + 2, "n");
  CHECK(sgn(mg_strcmp(a, b)) == refcmp(a.p, a.len, b.p, b.len, 0), "mg_strcmp");
  CHECK(sgn(mg_strncmp(a, b, n)) == refcmp(a.p, a.len < n ? a.len : n, b.p, b.len < n ? b.len : n, 0), "mg_strncmp");
  CHECK((mg_strcasecmp(a, b) == 0) == (refcmp(a.p, a.len, b.p, b.len, 1) == 0), "mg_strcasecmp equality");
  CHECK(mg_str_starts_with(a, b) == (a.len >= b.len && memcmp(a.p, b.p, b.len) == 0), "mg_str_starts_with");
  vs_reach("end"); free((void *) a.p); free((void *) b.p);
}
void H_mgstr_find(void) {
  struct mg_str h = symstr("h", MS + 1), n = symstr("n", 2); size_t i; const char *exp = NULL; int c = (int) (unsigned char) vs_choose(3, "ci"); unsigned char cc; vs_sym(&cc, 1, "c"); (void) c;
  if (n.len <= h.len) for (i = 0; i + n.len <= h.len; i++) if (memcmp(h.p + i, n.p, n.len) == 0) { exp = h.p + i; break; }
  CHECK(mg_strstr(h, n) == exp, "mg_strstr finds the first occurrence");
  exp = NULL; for (i = 0; i < h.len; i++) if ((unsigned char) h.p[i] == cc) { exp = h.p + i; break; }
  CHECK(mg_strchr(h, (char) cc) == exp, "mg_strchr"); vs_reach("end"); free((void *) h.p); free((void *) n.p);
}
void H_mgstr_misc(void) {
  size_t live0; struct mg_str a = symstr("a", MS), d, s; char z[MS + 1]; size_t i, st, en; live0 = vs_live();
  d = mg_strdup(a); CHECK(d.len == a.len && memcmp(d.p, a.p, a.len) == 0 && (a.len == 0 || d.p != a.p), "mg_strdup copies"); mg_strfree(&d); CHECK(d.p == NULL && d.len == 0, "mg_strfree resets");
  d = mg_strdup_nul(a); CHECK(d.len == a.len && (d.p == NULL || d.p[d.len] == 0), "mg_strdup_nul terminates"); for (i = 0; i < d.len; i++) CHECK(d.p[i] == a.p[i], "mg_strdup_nul copies"); mg_strfree(&d);
  CHECK(vs_live() == live0, "mg_str leaks nothing");
  s = mg_strstrip(a); for (st = 0; st < a.len && isspace((int) a.p[st]); st++) {} for (en = a.len; en > st && isspace((int) a.p[en - 1]); en--) {}
  CHECK(s.len == en - st && (s.len == 0 || s.p == a.p + st), "mg_strstrip trims exactly the white space");
  for (i = 0; i < a.len; i++) { z[i] = a.p[i]; ASSUME(z[i] != 0); } z[a.len] = 0;
  CHECK(mg_mk_str(z).len == a.len && mg_vcmp(&a, z) == 0 && mg_vcasecmp(&a, z) == 0, "C string conversions");
  vs_reach("end"); free((void *) a.p);
}
void H_mgstr_vcmp(void) {
  struct mg_str a = symstr("a", MS); char z[MS + 1]; int n = vs_choose(MS + 1, "zl"), i; if (n) vs_sym(z, n, "z"); for (i = 0; i < n; i++) ASSUME(z[i] != 0); z[n] = 0;
  CHECK((mg_vcmp(&a, z) == 0) == (refcmp(a.p, a.len, z, n, 0) == 0), "mg_vcmp equality");
  CHECK((mg_vcasecmp(&a, z) == 0) == (refcmp(a.p, a.len, z, n, 1) == 0), "mg_vcasecmp equality"); vs_reach("end"); free((void *) a.p);
}
