/* what is written through stdio (lib/out_pre.h) */
#include <stdarg.h>
struct cap { char b[2000]; size_t n; };
static struct cap FA, FOUT, FERR, FOTHER;
static struct cap *cap(void *f) { return f == (void *) stdout ? &FOUT : f == (void *) stderr ? &FERR : f == (void *) &FA ? &FA : &FOTHER; }
static void put(void *f, const char *s, size_t n) { struct cap *c = cap(f); CHECK(c->n + n < sizeof c->b, "not more text than expected"); memcpy(c->b + c->n, s, n); c->n += n; }
size_t o_fwrite(const void *p, size_t s, size_t n, void *f) { put(f, p, s * n); return n; }
int o_fputc(int c, void *f) { char x = (char) c; put(f, &x, 1); return (unsigned char) x; }
int o_fputs(const char *s, void *f) { put(f, s, strlen(s)); return 1; }
int o_puts(const char *s) { o_fputs(s, stdout); o_fputc('\n', stdout); return 1; }
int o_vfprintf(void *f, const char *fmt, va_list ap) { static char t[1000]; int n = vsnprintf(t, sizeof t, fmt, ap); CHECK(n >= 0 && n < (int) sizeof t, "not more text than expected"); put(f, t, n); return n; }
int o_fprintf(void *f, const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = o_vfprintf(f, fmt, ap); va_end(ap); return n; }
int o_printf(const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = o_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int o_fflush(void *f) { (void) f; return 0; }
