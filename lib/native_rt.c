/* strtod in the replay build is the same C model as in the symbolic build (rt.c), so that ASan sees every byte it
 * reads; its result is cross-checked against libc's. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <ctype.h>
double vs_host_strtod(const char *s, size_t n) { char b[400]; if (n > 399) n = 399; memcpy(b, s, n); b[n] = 0; return strtod(b, 0); }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; c |= 32; if (c >= 'a' && c <= 'z') return c - 'a' + 10; return 99; }
#define VS_STRTOD vs_model_strtod
#include "strtod_model.h"

/* files read by the repository's code are supplied by the harness, as in rt.c */
__attribute__((weak)) const char *vs_file_data(const char *name, size_t *len);
FILE *vs_fopen(const char *name, const char *mode) { size_t n = 0; const char *d = vs_file_data ? vs_file_data(name, &n) : 0; return d ? fmemopen((void *) d, n, mode) : 0; }
