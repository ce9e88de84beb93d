/* Harness interface shared by the symbolic executor (vsym) and the native replay build. */
#ifndef VS_H
#define VS_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vs_sym(void *p, size_t n, const char *name);          /* make n bytes symbolic */
void vs_assume(uint64_t c);                                /* restrict the inputs */
void vs_check(uint64_t c, const char *what);               /* the property */
void vs_reach(const char *what);                           /* reachability witness */
int vs_choose(int n, const char *name);                    /* case split: 0..n-1, n<=256 */
uint64_t vs_conc(uint64_t v);                              /* case split over all feasible values */
uint64_t vs_pick_model(uint64_t v);                        /* ONE feasible value (recorded as outside the claim) */
size_t vs_live(void);                                      /* number of live heap blocks */
void vs_exit(void);
void vs_cut(const char *why);                              /* path left out of the claim (recorded) */
int vs_case(void);
void vs_print(const char *what, uint64_t v);
int vs_readable(const void *p, size_t n);
size_t vs_alloc_size(const void *p);
#ifdef __cplusplus
}
#endif
#endif
