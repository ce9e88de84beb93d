/* Engine helpers shared by the script-level harnesses. Only the public embedding API is used unless stated otherwise. */
#include "h.h"
static struct mjs *h_new(void) { return mjs_create(); }
/* run a script; its value goes to *r (undefined on error) */
static mjs_err_t h_run(struct mjs *m, const char *src, mjs_val_t *r) { mjs_val_t v = MJS_UNDEFINED; mjs_err_t e = mjs_exec(m, src, &v); if (r) *r = v; return e; }
static mjs_val_t h_ok(struct mjs *m, const char *src) { mjs_val_t v = MJS_UNDEFINED; mjs_err_t e = mjs_exec(m, src, &v); CHECK(e == MJS_OK, "script runs without an error"); return v; }
static void h_setn(struct mjs *m, const char *n, double d) { mjs_set(m, mjs_get_global(m), n, ~0, mjs_mk_number(m, d)); }
static void h_sets(struct mjs *m, const char *n, const char *s, size_t l) { mjs_set(m, mjs_get_global(m), n, ~0, mjs_mk_string(m, s, l, 1)); }
static void h_setf(struct mjs *m, const char *n, void (*f)(struct mjs *)) { mjs_set(m, mjs_get_global(m), n, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) f)); }
static mjs_val_t h_get(struct mjs *m, const char *n) { return mjs_get(m, mjs_get_global(m), n, ~0); }
static int h_streq(struct mjs *m, mjs_val_t v, const char *s, size_t l) { size_t n = 0, i; const char *p; if (!mjs_is_string(v)) return 0; p = mjs_get_string(m, &v, &n); if (n != l) return 0; for (i = 0; i < l; i++) if (p[i] != s[i]) return 0; return 1; }
/* branch-free variant: one verdict over all bytes */
static uint64_t h_bytes_eq(const char *a, const char *b, size_t n) { uint64_t bad = 0; size_t i; for (i = 0; i < n; i++) bad |= (uint64_t) (unsigned char) (a[i] ^ b[i]); return bad == 0; }
static uint64_t d2u(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double u2d(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static int h_isnan(double d) { return d != d; }
static int h_same(double a, double b) { return (d2u(a) == d2u(b)) | (h_isnan(a) & h_isnan(b)); }
/* after any top-level call the engine's stacks are back to empty (internal view) */
static void h_idle(struct mjs *m, const char *what) {
  CHECK(m->stack.len == 0 && m->call_stack.len == 0 && m->arg_stack.len == 0 && m->loop_addresses.len == 0 && m->scopes.len == sizeof(mjs_val_t), what);
}
