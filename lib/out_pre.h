/* forced include of the translation units of C26: text written to files goes to the capture buffers in prt.c */
#ifndef OUT_PRE_H
#define OUT_PRE_H
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
size_t o_fwrite(const void *p, size_t s, size_t n, void *f);
int o_fputc(int c, void *f);
int o_fputs(const char *s, void *f);
int o_puts(const char *s);
int o_fprintf(void *f, const char *fmt, ...);
int o_printf(const char *fmt, ...);
int o_vfprintf(void *f, const char *fmt, va_list ap);
int o_fflush(void *f);
#undef fwrite
#undef fputc
#undef putc
#undef putchar
#undef fputs
#undef puts
#undef printf
#undef fprintf
#undef vfprintf
#undef vprintf
#undef fflush
#define fwrite(p, s, n, f) o_fwrite(p, s, n, f)
#define fputc(c, f) o_fputc(c, f)
#define putc(c, f) o_fputc(c, f)
#define putchar(c) o_fputc(c, stdout)
#define fputs(s, f) o_fputs(s, f)
#define puts(s) o_puts(s)
#define printf(...) o_printf(__VA_ARGS__)
#define fprintf(...) o_fprintf(__VA_ARGS__)
#define vfprintf(f, m, a) o_vfprintf(f, m, a)
#define vprintf(m, a) o_vfprintf(stdout, m, a)
#define fflush(f) o_fflush(f)
#ifdef MJS_MAIN
#define main mjs_cli_main
#endif
#endif
