/* forced include of the translation units of C24: file operations are those of the model file system in jsc.c */
#ifndef JSC_PRE_H
#define JSC_PRE_H
#define CS_MMAP 1
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#undef fopen
void *j_fopen(const char *name, const char *mode);
size_t j_fwrite(const void *p, size_t s, size_t n, void *f);
size_t j_fread(void *p, size_t s, size_t n, void *f);
int j_fclose(void *f);
int j_fflush(void *f);
int j_fseek(void *f, long o, int w);
long j_ftell(void *f);
int j_open(const char *name, int flags, int mode);
int j_close(int fd);
int j_fstat(int fd, struct stat *st);
int j_stat(const char *name, struct stat *st);
ssize_t j_read(int fd, void *p, size_t n);
ssize_t j_write(int fd, const void *p, size_t n);
void *j_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o);
int j_munmap(void *p, size_t n);
int j_unlink(const char *name);
int j_rename(const char *a, const char *b);
#define fopen(n, m) ((FILE *) j_fopen(n, m))
#define fwrite(p, s, n, f) j_fwrite(p, s, n, f)
#define fread(p, s, n, f) j_fread(p, s, n, f)
#define fclose(f) j_fclose(f)
#define fseek(f, o, w) j_fseek(f, o, w)
#define ftell(f) j_ftell(f)
#define J_OPEN(n, f, m, ...) j_open(n, f, m)
#define open(...) J_OPEN(__VA_ARGS__, 0, 0)
#define close(f) j_close(f)
#define fstat(f, s) j_fstat(f, s)
#define mmap(a, n, p, f, d, o) j_mmap(a, n, p, f, d, o)
#define munmap(p, n) j_munmap(p, n)
#define unlink(n) j_unlink(n)
#define remove(n) j_unlink(n)
#define rename(a, b) j_rename(a, b)
#endif
