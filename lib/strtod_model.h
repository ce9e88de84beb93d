/* shared C model of strtod (C locale), exact for <=15 significant digits and |exp10|<=22, else host strtod */
static int ci(const char *s, const char *lit) { for (; *lit; s++, lit++) if (tolower((unsigned char) *s) != *lit) return 0; return 1; }
double VS_STRTOD(const char *s, char **end) {
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  const char *p = s; int neg = 0; double r;
  while (isspace((unsigned char) *p)) p++;
  const char *start = p;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (ci(p, "inf")) { p += 3; if (ci(p, "inity")) p += 5; r = __builtin_inf(); goto done; }
  if (ci(p, "nan")) { p += 3; if (*p == '(') { const char *q = p + 1; while (isalnum((unsigned char) *q) || *q == '_') q++; if (*q == ')') p = q + 1; } r = __builtin_nan(""); goto done; }
  if (p[0] == '0' && (p[1] | 32) == 'x' && (isxdigit((unsigned char) p[2]) || (p[2] == '.' && isxdigit((unsigned char) p[3])))) {
    uint64_t m = 0; int nd = 0, exact = 1; p += 2;
    while (isxdigit((unsigned char) *p)) { if (nd < 13) m = m * 16 + dig((unsigned char) *p); else exact = 0; if (nd || m) nd++; p++; }
    if (*p == '.') { exact = 0; p++; while (isxdigit((unsigned char) *p)) p++; }
    if ((*p | 32) == 'p') { const char *q = p + 1; if (*q == '-' || *q == '+') q++; if (isdigit((unsigned char) *q)) { exact = 0; while (isdigit((unsigned char) *q)) q++; p = q; } }
    if (exact) r = (double) m; else { r = vs_host_strtod(start, p - start); if (end) *end = (char *) p; return r; }
    goto done;
  }
  { uint64_t m = 0; int nd = 0, any = 0, e10 = 0, exact = 1;
    for (; isdigit((unsigned char) *p); p++) { any = 1; if (nd < 15) { m = m * 10 + (*p & 15); if (nd || *p != '0') nd++; } else exact = 0; }
    if (*p == '.') { const char *q = p + 1; if (any || isdigit((unsigned char) *q)) { p = q; for (; isdigit((unsigned char) *p); p++) { any = 1; if (nd < 15) { m = m * 10 + (*p & 15); if (nd || *p != '0') nd++; e10--; } else exact = 0; } } }
    if (!any) { if (end) *end = (char *) s; return 0; }
    if ((*p | 32) == 'e') { const char *q = p + 1; int en = 0; long ev = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++;
      if (isdigit((unsigned char) *q)) { for (; isdigit((unsigned char) *q); q++) if (ev < 100000) ev = ev * 10 + (*q & 15); e10 += en ? -ev : ev; p = q; } }
    if (e10 == 0 && exact) r = (double) m;
    else if (exact && e10 > 0 && e10 <= 22) r = (double) m * p10[e10];
    else if (exact && e10 < 0 && e10 >= -22) r = (double) m / p10[-e10];
    else { r = vs_host_strtod(start, p - start); if (end) *end = (char *) p; return r; }
  }
done:
  if (end) *end = (char *) p;
  return neg ? -r : r;
}
