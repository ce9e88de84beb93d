#include "eng.h"
#include "jsc_pre.h"
#include "mjs_bcode.h"
/* C24: code precompiled to .jsc files. The file system is a model: two names, inodes with data, open files, mappings, and
 * faults chosen at any operation. The data of an inode that is cut or overwritten while it is mapped is freed, so a use of
 * such a mapping is an error. */
struct ino { char *d; size_t n, links, maps, opens; };
struct of { struct ino *i; size_t pos; int wr, used; };
static struct { const char *name; struct ino *i; int ro; } DIR_[2] = { { "d/a.js" }, { "d/a.jsc" } };
static struct of OF[8]; static struct { void *p; size_t n; struct ino *i; } MP[8];
static int nf, nm, faults, maxfaults, rodir, writes, opened;
static int fault(const char *what) { if (faults >= maxfaults || !vs_choose(2, what)) return 0; faults++; return 1; }
static int slot(const char *n) { int i; for (i = 0; i < 2; i++) if (DIR_[i].name && !strcmp(n, DIR_[i].name)) return i; return -1; }
static void drop(struct ino *i) { if (i && !i->links && !i->maps && !i->opens) { free(i->d); free(i); } }
static struct ino *mk(const char *d, size_t n) { struct ino *i = calloc(1, sizeof *i); i->d = malloc(n ? n : 1); memcpy(i->d, d, n); i->n = n; return i; }
static void put_file(int k, const char *d, size_t n) { struct ino *o = DIR_[k].i; DIR_[k].i = d ? mk(d, n) : NULL; if (d) DIR_[k].i->links = 1; if (o) { o->links--; drop(o); } }
static void cut(struct ino *i) { free(i->d); i->d = malloc(1); i->n = 0; }
static struct of *op(struct ino *i, int wr) { int k; struct of *f = NULL; for (k = 0; k < 8; k++) if (!OF[k].used) { f = &OF[k]; break; } CHECK(f != NULL, "files left open"); f->i = i; i->opens++; f->pos = 0; f->wr = wr; f->used = 1; opened++; return f; }
static struct of *opn(const char *name, int rd, int creat, int trunc, int excl) { int k = slot(name); if (k < 0) { CHECK(!creat, "no file but the precompiled one is created"); errno = ENOENT; return NULL; } if (fault(rd ? "open" : "create")) { errno = EACCES; return NULL; } if (!DIR_[k].i) { if (!creat) { errno = ENOENT; return NULL; } if (rodir) { errno = EACCES; return NULL; } put_file(k, "", 0); DIR_[k].ro = 0; } else if (excl) { errno = EEXIST; return NULL; } if (!rd && DIR_[k].ro) { errno = EACCES; return NULL; } if (trunc && DIR_[k].i->n) cut(DIR_[k].i); return op(DIR_[k].i, !rd); }
void *j_fopen(const char *name, const char *mode) { return opn(name, mode[0] == 'r' && !strchr(mode, '+'), mode[0] != 'r', mode[0] == 'w', strchr(mode, 'x') != NULL); }
size_t j_fwrite(const void *p, size_t s, size_t n, void *vf) { struct of *f = vf; size_t k = s * n; CHECK(f->wr && f->used, "a file open for writing"); writes++; if (fault("write")) k = vs_choose(2, "short") ? k / 2 : 0; { struct ino *i = f->i; char *d = malloc(f->pos + k > i->n ? f->pos + k : i->n + 1); memcpy(d, i->d, i->n); memcpy(d + f->pos, p, k); if (f->pos + k > i->n) i->n = f->pos + k; free(i->d); i->d = d; f->pos += k; } return s ? k / s : 0; }
size_t j_fread(void *p, size_t s, size_t n, void *vf) { struct of *f = vf; size_t k = s * n; CHECK(f->used, "an open file"); if (k > f->i->n - f->pos) k = f->i->n - f->pos; if (k && fault("read")) k--; memcpy(p, f->i->d + f->pos, k); f->pos += k; return s ? k / s : 0; }
int j_fclose(void *vf) { struct of *f = vf; CHECK(f->used, "closed once"); f->used = 0; f->i->opens--; if (f->wr && f->i->n && fault("close")) { f->i->n--; drop(f->i); return -1; } drop(f->i); return 0; }
int j_fseek(void *vf, long o, int w) { struct of *f = vf; CHECK(f->used, "an open file"); if (fault("seek")) return -1; f->pos = w == 0 ? (size_t) o : w == 1 ? f->pos + o : f->i->n + o; return 0; }
long j_ftell(void *vf) { struct of *f = vf; CHECK(f->used, "an open file"); return (long) f->pos; }
int j_open(const char *name, int fl, int mode) { struct of *f = opn(name, (fl & 3) == O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL); return f ? 100 + (int) (f - OF) : -1; }
static struct of *fdo(int fd) { CHECK(fd >= 100 && fd < 108 && OF[fd - 100].used, "an open descriptor"); return &OF[fd - 100]; }
int j_close(int fd) { return j_fclose(fdo(fd)); }
int j_fstat(int fd, struct stat *st) { struct of *f = fdo(fd); if (fault("stat")) return -1; memset(st, 0, sizeof *st); st->st_size = f->i->n; st->st_mode = S_IFREG | 0644; return 0; }
ssize_t j_read(int fd, void *p, size_t n) { return j_fread(p, 1, n, fdo(fd)); }
ssize_t j_write(int fd, const void *p, size_t n) { return j_fwrite(p, 1, n, fdo(fd)); }
void *j_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) { struct of *f = fdo(fd); int k; CHECK(!(prot & PROT_WRITE) || !(flags & MAP_SHARED), "the file is not changed through a mapping"); if (!n || o || n > f->i->n || fault("mmap")) { errno = EINVAL; return MAP_FAILED; } for (k = 0; k < 8; k++) if (!MP[k].p) { MP[k].p = f->i->d; MP[k].n = n; MP[k].i = f->i; f->i->maps++; nm++; return f->i->d; } CHECK(0, "mappings are left"); return MAP_FAILED; }
int j_munmap(void *p, size_t n) { int k; for (k = 0; k < 8; k++) if (MP[k].p == p && MP[k].n == n) { MP[k].p = NULL; MP[k].i->maps--; nm--; drop(MP[k].i); return 0; } CHECK(0, "unmaps what is mapped"); return -1; }
int j_unlink(const char *n) { int k = slot(n); if (k < 0 || !DIR_[k].i) { errno = ENOENT; return -1; } CHECK(k == 1, "only the precompiled file is removed"); if (rodir || fault("unlink")) { errno = EACCES; return -1; } put_file(k, NULL, 0); return 0; }
int j_rename(const char *a, const char *b) { (void) a; (void) b; return -1; }
static int nm_(void) { return nm; }
static int openf(void) { int k, n = 0; for (k = 0; k < 8; k++) n += OF[k].used; return n; }
/* programs that use code of the file after it has been loaded; # is any digit */
static const char *const P[] = { "let f=function(a){return a*2+#;};f(10);", "let x=#;for(let i=0;i<3;i++){x=x+1;}let f=function(a){return a+x;};f(1);", "nosuch#;", "let f=function(a){\n\nreturn nosuch+#;};1;", "", "let s='abcdefgh'+'#';let f=function(a){return s+a;};f('z');" };
static void src(char *d, int k, char c) { const char *s = P[k]; for (; *s; s++) *d++ = *s == '#' ? c : *s; *d = 0; }
static int sameres(struct mjs *a, mjs_err_t e, mjs_val_t x, struct mjs *b, mjs_err_t g, mjs_val_t y) { size_t n; const char *s; if (e != g) return 0; if (e) return 1; if (mjs_is_string(x)) { s = mjs_get_string(a, &x, &n); return h_streq(b, y, s, n); } if (mjs_is_number(x)) return mjs_is_number(y) && h_same(mjs_get_double(a, x), mjs_get_double(b, y)); if (mjs_is_function(x)) return mjs_is_function(y); return x == y; }
#ifndef NFAULT
#define NFAULT 1
#endif
/* one file, with a precompiled file of any content (absent, some bytes, up to date, one byte off, one byte more or less) before it and a fault anywhere */
static int both(struct mjs *m, struct mjs *w, const char *name, const char *text) { mjs_val_t x = MJS_UNDEFINED, y = MJS_UNDEFINED; mjs_err_t e, g; g = mjs_exec(w, text, &y); e = mjs_exec_file(m, name, &x); if (faults && e == MJS_FILE_READ_ERROR) return 0; CHECK(sameres(w, g, y, m, e, x), "the same outcome as the text"); return 1; }
static void use(struct mjs *m, struct mjs *w) { mjs_val_t x, y; mjs_err_t e = h_run(m, "f(5)", &x), g = h_run(w, "f(5)", &y); CHECK(sameres(w, g, y, m, e, x), "functions of the file still work"); h_idle(m, "idle"); }
void H_jsc_one(void) { size_t live; struct mjs *m, *w; static char T[128]; int k = vs_choose(6, "text"), pre = vs_choose(6, "pre"); char c, *bc; size_t bl, i; live = vs_live(); m = h_new(); w = h_new(); vs_sym(&c, 1, "c"); vs_assume((c >= '1') & (c <= '9')); src(T, k, c); put_file(0, T, strlen(T));
  { struct mjs *q = h_new(); struct mjs_bcode_part *bp; mjs_val_t r; mjs_exec_file(q, "d/a.js", &r); bp = mjs_bcode_part_get(q, mjs_bcode_parts_cnt(q) - 1); bl = bp->data.len; bc = malloc(bl + 1); memcpy(bc, bp->data.p, bl); bc[bl] = 0; mjs_destroy(q); }
  CHECK(DIR_[1].i == NULL, "no precompiled file unless asked for");
  switch (pre) { case 0: break; case 1: { char b[4]; int n = vs_choose(5, "n"); vs_sym(b, n, "b"); put_file(1, b, n); break; } case 2: put_file(1, bc, bl); break; case 3: { i = vs_choose(bl, "at"); char x, o = bc[i]; vs_sym(&x, 1, "x"); bc[i] = x; put_file(1, bc, bl); bc[i] = o; break; } case 4: put_file(1, bc, bl - 1); break; case 5: put_file(1, bc, bl + 1); break; }
  if (DIR_[1].i) DIR_[1].ro = vs_choose(2, "readonly"); rodir = vs_choose(2, "rodir"); maxfaults = NFAULT; mjs_set_generate_jsc(m, 1);
  if (!both(m, w, "d/a.js", T)) { CHECK(!openf() && !writes, "an unreadable source changes nothing"); goto fin; } use(m, w); CHECK(!openf(), "no file stays open");
  if (!faults && !rodir) { CHECK(DIR_[1].i && DIR_[1].i->n == bl && h_bytes_eq(DIR_[1].i->d, bc, bl), "the precompiled file has the code"); } CHECK(DIR_[0].i->n == strlen(T) && h_bytes_eq(DIR_[0].i->d, T, strlen(T)), "the source is untouched"); if (pre == 2) CHECK(faults || !writes, "an up to date file is not written");
fin: mjs_destroy(m); CHECK(!nm, "nothing stays mapped"); mjs_destroy(w); free(bc); put_file(0, NULL, 0); put_file(1, NULL, 0); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* a text that does not parse, or cannot be read, leaves everything as it is */
void H_jsc_bad(void) { size_t live = vs_live(); struct mjs *m = h_new(); static const char *const B[] = { "let a=;", "nosuch(", "{", "let s=)" }; char b[4], o[4]; int k = vs_choose(5, "text"), n = vs_choose(5, "n"), how = vs_choose(2, "how"); mjs_val_t r; mjs_err_t e; vs_sym(b, n, "b"); memcpy(o, b, n); if (k < 4) put_file(0, B[k], strlen(B[k])); put_file(1, b, n); maxfaults = NFAULT; mjs_set_generate_jsc(m, 1); e = how ? h_run(m, "load('d/a.js')", &r) : mjs_exec_file(m, "d/a.js", &r); CHECK(e == MJS_SYNTAX_ERROR ? k < 4 : e == MJS_FILE_READ_ERROR && (k == 4 || faults), "the error"); CHECK(!writes && DIR_[1].i && DIR_[1].i->n == (size_t) n && h_bytes_eq(DIR_[1].i->d, o, n), "nothing is written"); h_idle(m, "idle"); CHECK(h_run(m, "1+1", &r) == MJS_OK && r == mjs_mk_number(m, 2), "still works"); mjs_destroy(m); CHECK(!openf() && !nm, "nothing stays open"); put_file(0, NULL, 0); put_file(1, NULL, 0); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* several executions of a file that changes in between; functions of the earlier ones stay usable */
#ifndef STEPS
#define STEPS 3
#endif
static const char *const V[] = { "let f=function(a){return a*2;};f(10);", "let q=[1,2,3];let z='some more code';let f=function(a){return a+q[1];};f(1);" };
void H_jsc_hist(void) { size_t live = vs_live(); struct mjs *m = h_new(), *w = h_new(); int i, k = 0; mjs_val_t x, y; maxfaults = NFAULT - 1; rodir = 0; mjs_set_generate_jsc(m, 1); put_file(0, V[0], strlen(V[0])); vs_assume(both(m, w, "d/a.js", V[0])); h_ok(m, "let g=f;"); h_ok(w, "let g=f;");
  for (i = 0; i < STEPS; i++) switch (vs_choose(5, "step")) { case 0: k = !k; put_file(0, V[k], strlen(V[k])); break; case 1: vs_assume(both(m, w, "d/a.js", V[k])); break; case 2: put_file(1, NULL, 0); break; case 3: rodir = !rodir; break; default: { mjs_err_t e = h_run(m, "load('d/a.js',{})", &x); CHECK(e == MJS_OK && x == mjs_mk_number(m, 20), "load() runs the code loaded before"); break; } }
  { mjs_err_t e = h_run(m, "g(5)", &x), g = h_run(w, "g(5)", &y); CHECK(sameres(w, g, y, m, e, x), "functions of the first version still work"); }
  use(m, w); CHECK(!openf(), "no file stays open"); mjs_destroy(m); CHECK(!nm, "nothing stays mapped"); mjs_destroy(w); put_file(0, NULL, 0); put_file(1, NULL, 0); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
/* names: only a name that ends in .js and has something before it gets a precompiled file */
#ifndef NN
#define NN 5
#endif
void H_jsc_name(void) { size_t live = vs_live(); struct mjs *m = h_new(); static char nm[NN + 1], nc[NN + 2]; int n = 1 + vs_choose(NN, "n"), i, is, how = vs_choose(3, "how"); mjs_val_t r = MJS_UNDEFINED; vs_sym(nm, n, "name"); for (i = 0; i < n; i++) vs_assume((nm[i] != 0) & (nm[i] != '\\') & (nm[i] != '\'') & (nm[i] != '\n')); nm[n] = 0; is = n > 3 && nm[n - 3] == '.' && nm[n - 2] == 'j' && nm[n - 1] == 's'; memcpy(nc, nm, n); nc[n] = 'c'; nc[n + 1] = 0; DIR_[0].name = nm; DIR_[1].name = is ? nc : NULL; put_file(0, "7;", 2); if (how) mjs_set_generate_jsc(m, 1); if (how == 2) mjs_set_generate_jsc(m, 0);
  CHECK(mjs_exec_file(m, nm, &r) == MJS_OK && r == mjs_mk_number(m, 7), "the file runs"); CHECK((DIR_[1].i != NULL) == (is && how == 1), "a precompiled file for names that end in .js, when asked for"); CHECK(writes == (is && how == 1), "nothing else is written"); mjs_destroy(m); CHECK(!openf() && !nm_(), "nothing stays open"); put_file(0, NULL, 0); put_file(1, NULL, 0); CHECK(vs_live() == live, "nothing leaks"); vs_reach("end"); }
#ifndef VS_NATIVE
static int en_; int *__errno_location(void) { return &en_; }
#endif
