/* Environment model: the libc functions mJS uses, in plain C, so they are executed symbolically.
 * malloc/calloc/realloc/free/memcpy/memmove/memset/abort are built into vsym. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "vs.h"
int vs_fmt_double(char *buf, size_t n, const char *fmt, double d);
double vs_host_strtod(const char *s, size_t n);
int vs_is_symbolic(uint64_t v);
void *malloc(size_t); void *memcpy(void *, const void *, size_t); void abort(void); void *memset(void*,int,size_t);

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int) x[i] - (int) y[i]; return 0; }
int strcmp(const char *a, const char *b) { const unsigned char *x = (const void *) a, *y = (const void *) b; for (;; x++, y++) { if (*x != *y) return (int) *x - (int) *y; if (!*x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { const unsigned char *x = (const void *) a, *y = (const void *) b; for (; n; n--, x++, y++) { if (*x != *y) return (int) *x - (int) *y; if (!*x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char) c) return (void *) (p + i); return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *) s; return 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *) h; if (!*h) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
/* C locale; arguments outside 0..255 yield 0 (glibc table lookups at -128..255 give the same classes for the
   values used here) */
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z') & (c >= 0) & (c < 128); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isxdigit(int c) { return isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f') & (c >= 0) & (c < 128)); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
int toupper(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }

double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; if (__builtin_fabs(x) == __builtin_inf()) return __builtin_copysign(0.0, x); return __builtin_copysign(x - t, x); }
double fabs(double x) { return __builtin_fabs(x); }

static int dig(int c) { if ((c >= '0') & (c <= '9')) return c - '0'; c |= 32; if ((c >= 'a') & (c <= 'z')) return c - 'a' + 10; return 99; }
static unsigned long long strtoull_(const char *s, char **end, int base, int *neg, int *ovf) {
  const char *p = s, *st; unsigned long long v = 0; *neg = 0; *ovf = 0; int any = 0;
  while (isspace((unsigned char) *p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && dig((unsigned char) p[2]) < 16) { base = 16; p += 2; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (st = p;; p++) { int d = dig((unsigned char) *p); if (d >= base) break; any = 1; if (v > (~0ull - d) / base) *ovf = 1; v = v * base + d; }
  (void) st; if (end) *end = (char *) (any ? p : s); return any ? v : 0;
}
long strtol(const char *s, char **e, int b) { int n, o; unsigned long long v = strtoull_(s, e, b, &n, &o); if (n) { if (o || v > 0x8000000000000000ull) return (long) 0x8000000000000000ull; return (long) (0 - v); } if (o || v > 0x7fffffffffffffffull) return 0x7fffffffffffffffl; return (long) v; }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long long v = strtoull_(s, e, b, &n, &o); if (o) return ~0ul; return n ? 0 - v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, 0, 10); }

#define VS_STRTOD strtod
#include "strtod_model.h"
double atof(const char *s) { return strtod(s, 0); }

/* ---- formatted output ---- */
struct ob { char *b; size_t n, len; };
static void oc(struct ob *o, char c) { if (o->len + 1 < o->n) o->b[o->len] = c; o->len++; }
int vsnprintf(char *buf, size_t size, const char *f, va_list ap) {
  struct ob o = {buf, size, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++;
    int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, w = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (isdigit((unsigned char) *f)) w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char) *f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'h') lng--; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 1; else break; }
    char tmp[72]; const char *s = tmp; size_t sl = 0; char sign = 0; char c = *f; int isnum = 0;
    if (c == 'd' || c == 'i') {
      long long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) v = (short) v; else if (lng <= -2) v = (signed char) v;
      unsigned long long u = v < 0 ? 0 - (unsigned long long) v : v; if (v < 0) sign = '-'; else if (plus) sign = '+'; else if (sp) sign = ' ';
      char *e = tmp + 70, *q = e; while (u) { *--q = '0' + u % 10; u /= 10; } if (q == e && prec != 0) *--q = '0'; s = q; sl = e - q; isnum = 1;
    } else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      unsigned long long u = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) u = (unsigned short) u; else if (lng <= -2) u = (unsigned char) u;
      unsigned b = c == 'u' ? 10 : c == 'o' ? 8 : 16; const char *dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char *e = tmp + 70, *q = e; int nz = u != 0;
      while (u) { unsigned d = u % b; *--q = b == 16 ? dg[d] : '0' + d; u /= b; } if (q == e && prec != 0) *--q = '0'; if (alt && b == 16 && nz) { *--q = c; *--q = '0'; } s = q; sl = e - q; isnum = 1;
    } else if (c == 'p') { unsigned long u = (unsigned long) va_arg(ap, void *); char *e = tmp + 70, *q = e; while (u) { *--q = "0123456789abcdef"[u & 15]; u >>= 4; } *--q = 'x'; *--q = '0'; s = q; sl = e - q;
    } else if (c == 'c') { tmp[0] = (char) va_arg(ap, int); sl = 1;
    } else if (c == 's') { s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || sl < (size_t) prec) && s[sl]) sl++;
    } else if (c == 'f' || c == 'g' || c == 'e' || c == 'F' || c == 'G' || c == 'E') {
      char fm[24]; int k = 0; fm[k++] = '%'; if (plus) fm[k++] = '+'; if (sp) fm[k++] = ' '; if (alt) fm[k++] = '#';
      if (prec >= 0) { fm[k++] = '.'; if (prec >= 100) fm[k++] = '0' + prec / 100; if (prec >= 10) fm[k++] = '0' + prec / 10 % 10; fm[k++] = '0' + prec % 10; } fm[k++] = c; fm[k] = 0;
      static char big[512]; sl = vs_fmt_double(big, sizeof big, fm, va_arg(ap, double)); s = big; prec = -1; isnum = 1; if (sl && big[0] == '-') { sign = '-'; s++; sl--; }
    } else if (c == 'n') { vs_cut("printf %n"); } else if (c == '%') { tmp[0] = '%'; sl = 1; } else { if (!c) { f--; continue; } vs_cut("printf conversion"); }
    size_t zp = 0; if (isnum && prec >= 0) { if ((size_t) prec > sl) zp = prec - sl; zero = 0; }
    size_t tot = sl + zp + (sign ? 1 : 0);
    if (isnum && zero && !left && (size_t) w > tot) { zp += w - tot; tot = w; }
    if (!left) for (size_t i = tot; i < (size_t) w; i++) oc(&o, ' ');
    if (sign) oc(&o, sign);
    for (size_t i = 0; i < zp; i++) oc(&o, '0');
    for (size_t i = 0; i < sl; i++) oc(&o, s[i]);
    if (left) for (size_t i = tot; i < (size_t) w; i++) oc(&o, ' ');
  }
  if (o.n) o.b[o.len < o.n ? o.len : o.n - 1] = 0;
  return (int) o.len;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }

/* ---- sscanf subset: %d %i %u %x %ld %lld %hd %hhd %f %lf %s %c %n ---- */
int vs_vsscanf(const char *s, const char *f, va_list ap) {
  int n = 0; const char *s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char) *f)) { while (isspace((unsigned char) *s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return n; s++; continue; }
    f++; int lng = 0; for (;; f++) { if (*f == 'l') lng++; else if (*f == 'h') lng--; else if (*f == 'z' || *f == 'j') lng = 1; else break; }
    char c = *f; char *e;
    if (c == 'n') { *va_arg(ap, int *) = (int) (s - s0); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x') {
      int b = c == 'd' || c == 'u' ? 10 : c == 'x' ? 16 : 0; unsigned long v = c == 'd' || c == 'i' ? (unsigned long) strtol(s, &e, b) : strtoul(s, &e, b); if (e == s) return n ? n : (*s ? 0 : -1); s = e; n++;
      void *t = va_arg(ap, void *); if (lng > 0) *(long *) t = v; else if (lng == 0) *(int *) t = (int) v; else if (lng == -1) *(short *) t = (short) v; else *(char *) t = (char) v;
    } else if (c == 'f' || c == 'g' || c == 'e') { double d = strtod(s, &e); if (e == s) return n ? n : (*s ? 0 : -1); s = e; n++; if (lng) *va_arg(ap, double *) = d; else *va_arg(ap, float *) = (float) d;
    } else if (c == 'c') { if (!*s) return n ? n : -1; *va_arg(ap, char *) = *s++; n++;
    } else if (c == 's') { char *t = va_arg(ap, char *); while (isspace((unsigned char) *s)) s++; if (!*s) return n ? n : -1; while (*s && !isspace((unsigned char) *s)) *t++ = *s++; *t = 0; n++;
    } else vs_cut("sscanf conversion");
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vs_vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vs_vsscanf(s, f, ap); va_end(ap); return r; }

/* ---- stdio: output is discarded, files do not exist unless the harness supplies them ---- */
int vs_stdout_, vs_stderr_, vs_stdin_;
void *stdout = &vs_stdout_, *stderr = &vs_stderr_, *stdin = &vs_stdin_;
__attribute__((weak)) const char *vs_file_data(const char *name, size_t *len) { (void) name; (void) len; return 0; }
struct vs_file { const char *p; size_t len, pos; };
void free(void *);
void *fopen(const char *n, const char *m) { size_t len = 0; const char *d = vs_file_data(n, &len); if (!d) return 0; struct vs_file *f = malloc(sizeof *f); f->p = d; f->len = len; f->pos = 0; (void) m; return f; }
void *fopen64(const char *n, const char *m) { return fopen(n, m); }
int fclose(void *f) { free(f); return 0; }
int fseek(void *vf, long o, int w) { struct vs_file *f = vf; f->pos = w == 0 ? (size_t) o : w == 1 ? f->pos + o : f->len + o; return 0; }
long ftell(void *vf) { return (long) ((struct vs_file *) vf)->pos; }
size_t fread(void *b, size_t s, size_t n, void *vf) { struct vs_file *f = vf; size_t k = s * n; if (k > f->len - f->pos) k = f->len - f->pos; memcpy(b, f->p + f->pos, k); f->pos += k; return s ? k / s : 0; }
size_t fwrite(const void *b, size_t s, size_t n, void *f) { (void) b; (void) s; (void) f; return n; }
int fputc(int c, void *f) { (void) f; return c; }
int putc(int c, void *f) { (void) f; return c; }
int fputs(const char *s, void *f) { (void) s; (void) f; return 0; }
int puts(const char *s) { (void) s; return 0; }
int putchar(int c) { return c; }
int fflush(void *f) { (void) f; return 0; }
int printf(const char *f, ...) { (void) f; return 0; }
int fprintf(void *o, const char *f, ...) { (void) o; (void) f; return 0; }
int vfprintf(void *o, const char *f, va_list ap) { (void) o; (void) f; (void) ap; return 0; }
int vprintf(const char *f, va_list ap) { (void) f; (void) ap; return 0; }
int fileno(void *f) { (void) f; return 1; }
void perror(const char *s) { (void) s; }
void *dlsym(void *h, const char *n) { (void) h; (void) n; return 0; }
long time(long *t) { if (t) *t = 0; return 0; }
char *getenv(const char *n) { (void) n; return 0; }
