/* forced first include of the repository's translation unit */
#ifdef VS_NATIVE
#include <stdlib.h>
double vs_model_strtod(const char *s, char **end);
#define strtod vs_model_strtod
#include <stdio.h>
FILE *vs_fopen(const char *name, const char *mode);
#define fopen vs_fopen
#endif
