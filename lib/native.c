/* Native replay of a harness: inputs come from a case file produced by vsym. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include "vs.h"
static FILE *in; static long live; static int casev;
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void mh(const volatile void *p, size_t n) { (void) n; if (p) live++; }
static void fh(const volatile void *p) { if (p) live--; }
static int rd(const char *name, unsigned char *out, size_t n) {
  static char line[1 << 16]; long l0 = live;
  while (fgets(line, sizeof line, in)) { char nm[256]; unsigned k; int pos = 0;
    if (sscanf(line, "in %255s %u %n", nm, &k, &pos) < 2) continue;
    if (strcmp(nm, name) || k != n) { fprintf(stderr, "REPLAY-DIVERGED: wanted %s[%zu] got %s[%u]\n", name, n, nm, k); _exit(90); }
    for (unsigned i = 0; i < k; i++) { unsigned x = 0; sscanf(line + pos + 2 * i, "%2x", &x); out[i] = x; } live = l0; return 1; }
  live = l0; memset(out, 0, n); return 0;
}
void vs_sym(void *p, size_t n, const char *name) { rd(name, p, n); }
void vs_assume(uint64_t c) { if (!c) { fprintf(stderr, "REPLAY: assumption false\n"); _exit(91); } }
void vs_check(uint64_t c, const char *what) { if (!c) { fprintf(stderr, "VS-CHECK-FAILED: %s\n", what); _exit(77); } }
void vs_reach(const char *w) { (void) w; }
int vs_choose(int n, const char *name) { unsigned char c = 0; rd(name, &c, 1); return c < n ? c : 0; }
uint64_t vs_conc(uint64_t v) { return v; }
uint64_t vs_pick_model(uint64_t v) { return v; }
size_t vs_live(void) { return (size_t) live; }
void vs_exit(void) { _exit(0); }
void vs_cut(const char *w) { fprintf(stderr, "REPLAY-CUT %s\n", w); _exit(92); }
int vs_case(void) { return casev; }
void vs_print(const char *w, uint64_t v) { fprintf(stderr, "[print] %s %llx\n", w, (unsigned long long) v); }
int vs_readable(const void *p, size_t n) { (void) p; (void) n; return 1; }
int main(int argc, char **argv) {
  if (argc < 3) return 2; in = fopen(argv[2], "r"); if (!in) return 2; if (argc > 3) casev = atoi(argv[3]);
  setvbuf(in, malloc(1 << 16), _IOFBF, 1 << 16);
  void (*f)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry\n"); return 2; }
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
  f(); fprintf(stderr, "REPLAY-OK\n"); _exit(0);
}
