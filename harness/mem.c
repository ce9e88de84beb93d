#include "eng.h"
#include "gen_lib.h"
/* C16: raw memory; C17: structs converted to objects */
#define MB 12
static void *rs(void *h, const char *n) { (void) h; return !strcmp(n, "mjs_mem_to_ptr") ? (void *) mjs_mem_to_ptr : !strcmp(n, "mjs_mem_get_ptr") ? (void *) mjs_mem_get_ptr : !strcmp(n, "mjs_mem_set_ptr") ? (void *) mjs_mem_set_ptr : !strcmp(n, "mjs_mem_get_dbl") ? (void *) mjs_mem_get_dbl : !strcmp(n, "mjs_mem_set_dbl") ? (void *) mjs_mem_set_dbl : !strcmp(n, "mjs_mem_get_uint") ? (void *) mjs_mem_get_uint : !strcmp(n, "mjs_mem_get_int") ? (void *) mjs_mem_get_int : !strcmp(n, "mjs_mem_set_uint") ? (void *) mjs_mem_set_uint : !strcmp(n, "mjs_mem_set_int") ? (void *) mjs_mem_set_int : NULL; }
static uint8_t *blk, old[MB];
static void mk(void) { blk = (uint8_t *) malloc(MB); vs_sym(blk, MB, "mem"); memcpy(old, blk, MB); }
/* the number n bytes denote */
static double spec(const uint8_t *p, int n, int big, int sgn) { uint32_t u = 0; int i; for (i = 0; i < n; i++) u |= (uint32_t) p[i] << (8 * (big ? n - 1 - i : i)); if (sgn && n < 4) { uint32_t s = 1u << (8 * n - 1); u = (u ^ s) - s; } return sgn ? (double) (int32_t) u : (double) u; }
static void unchanged(int from, int n) { uint64_t bad = 0; int i; for (i = 0; i < MB; i++) if (i < from || i >= from + n) bad |= (uint64_t) (blk[i] ^ old[i]); CHECK(bad == 0, "other bytes untouched"); }
static void holds(int from, int n, int big, uint32_t v) { uint64_t bad = 0; int i; for (i = 0; i < n; i++) bad |= (uint64_t) (blk[from + i] ^ (uint8_t) (v >> (8 * (big ? n - 1 - i : i)))); CHECK(bad == 0, "bytes written"); unchanged(from, n); }
void H_mem_get(void) { int n = 1 + vs_choose(4, "size"), off = vs_choose(MB - n + 1, "off"), sgn = vs_choose(2, "signed"); int big; vs_sym(&big, 4, "big"); mk(); { double r = sgn ? mjs_mem_get_int(blk + off, n, big) : mjs_mem_get_uint(blk + off, n, big); double e = big ? spec(blk + off, n, 1, sgn) : spec(blk + off, n, 0, sgn); CHECK(r == e, "number read"); unchanged(0, 0); } vs_reach("end"); }
void H_mem_set(void) { int n = 1 + vs_choose(4, "size"), off = vs_choose(MB - n + 1, "off"), sgn = vs_choose(2, "signed"), big = vs_choose(2, "big") ? -7 : 0; uint32_t v; vs_sym(&v, 4, "v"); mk(); if (sgn) mjs_mem_set_int(blk + off, (int) v, n, big); else mjs_mem_set_uint(blk + off, v, n, big); holds(off, n, big, v); vs_reach("end"); }
void H_mem_dbl(void) { int off = vs_choose(MB - 7, "off"); double d, r; uint64_t u; void *p; uint32_t w; vs_sym(&d, 8, "d"); vs_sym(&w, 4, "w"); mk(); r = mjs_mem_get_dbl(blk + off); memcpy(&u, blk + off, 8); CHECK(d2u(r) == u, "double read"); mjs_mem_set_dbl(blk + off, d); memcpy(&u, blk + off, 8); CHECK(u == d2u(d), "double written"); unchanged(off, 8); memcpy(old, blk, MB); p = (void *) (uintptr_t) w; if (off % 8 == 0) { mjs_mem_set_ptr(blk + off, p); memcpy(&u, blk + off, 8); CHECK(u == w, "pointer written"); unchanged(off, 8); } CHECK(mjs_mem_get_ptr(blk, off) == blk + off && mjs_mem_get_ptr(blk + off, -off) == blk, "pointer offset"); CHECK(mjs_mem_to_ptr(w) == p, "pointer made"); }
/* from scripts */
#define DECL "let gu=ffi('double mjs_mem_get_uint(void *,int,int)'); let gi=ffi('double mjs_mem_get_int(void *,int,int)'); let su=ffi('void mjs_mem_set_uint(void *,int,int,int)'); let si=ffi('void mjs_mem_set_int(void *,int,int,int)'); let gd=ffi('double mjs_mem_get_dbl(void *)'); let sd=ffi('void mjs_mem_set_dbl(void *,double)'); let pk=ffi('void *mjs_mem_get_ptr(void *,int)'); let tp=ffi('void *mjs_mem_to_ptr(int)'); let sp=ffi('void mjs_mem_set_ptr(void *,void *)');"
static struct mjs *scr(void) { struct mjs *m = h_new(); mjs_set_ffi_resolver(m, rs); h_ok(m, DECL); mk(); mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, blk)); return m; }
void H_mem_script(void) { struct mjs *m = scr(); int n = 1 + vs_choose(4, "size"), off = vs_choose(MB - n + 1, "off"), big = vs_choose(2, "big"), w = vs_choose(4, "op"), via = vs_choose(2, "via"); uint32_t v; mjs_val_t r; vs_sym(&v, 4, "v"); h_setn(m, "n", n); h_setn(m, "o", off); h_setn(m, "b", big); h_setn(m, "v", w == 3 ? (double) (int32_t) v : (double) v); h_ok(m, via ? "let q=pk(p,o)" : "let q=p+o");
  if (w < 2) { r = h_ok(m, w ? "gi(q,n,b)" : "gu(q,n,b)"); CHECK(mjs_is_number(r) && mjs_get_double(m, r) == spec(blk + off, n, big, w), "number read"); unchanged(0, 0); } else { h_ok(m, w == 2 ? "su(q,v,n,b)" : "si(q,v,n,b)"); holds(off, n, big, v); } vs_reach("end"); }
void H_mem_dscript(void) { struct mjs *m = scr(); double d; int off = vs_choose(MB - 7, "off"); uint64_t u; mjs_val_t r; vs_sym(&d, 8, "d"); h_setn(m, "d", d); h_setn(m, "o", off); r = h_ok(m, "gd(p+o)"); memcpy(&u, blk + off, 8); CHECK(mjs_is_number(r) && h_same(mjs_get_double(m, r), u2d(u)), "double read"); h_ok(m, "sd(p+o,d)"); memcpy(&u, blk + off, 8); CHECK(h_same(u2d(u), d), "double written"); unchanged(off, 8); h_ok(m, "sp(p,p+3)"); memcpy(&u, blk, 8); CHECK((uint8_t *) u == blk + 3, "pointer written"); r = h_ok(m, "tp(4096)"); CHECK(mjs_is_foreign(r) && mjs_get_ptr(m, r) == (void *) 4096, "pointer made"); r = h_ok(m, "(p+7)-(p+o)"); CHECK((mjs_is_foreign(r) ? (double) (intptr_t) mjs_get_ptr(m, r) : mjs_get_double(m, r)) == 7.0 - off || off > 7, "pointer difference"); r = h_ok(m, "p+o-o===p && p!==null"); CHECK(mjs_get_bool(m, r), "pointer arithmetic"); }
/* bytes by subscript */
void H_mem_index(void) { struct mjs *m = scr(); uint32_t i = vs_choose(MB, "i"); int16_t v; mjs_val_t r; mjs_err_t e; vs_sym(&v, 2, "v"); h_setn(m, "i", i); h_setn(m, "v", v); r = h_ok(m, "p[i]"); CHECK(mjs_is_number(r) && mjs_get_double(m, r) == blk[i], "byte read"); e = h_run(m, "p[i]=v", &r); if (v >= 0 && v < 256) { vs_reach("byte"); CHECK(e == MJS_OK && mjs_get_double(m, r) == v && blk[i] == v, "byte written"); unchanged(i, 1); } else { vs_reach("other"); CHECK(e != MJS_OK, "not a byte"); unchanged(0, 0); } { static const char *const bad[] = { "p[0]='a'", "p['x']=1", "p.x", "p[0]=true", "p[0]=null", "p[0]={}" }; int k = vs_choose(6, "bad"); memcpy(old, blk, MB); CHECK(h_run(m, bad[k], &r) != MJS_OK, "wrong types are errors"); unchanged(0, 0); h_idle(m, "idle"); } }
/* the DataView library */
static const struct { const char *get, *set; int n, sgn; } DV[] = { { "getInt8", "setInt8", 1, 1 }, { "getUint8", "setUint8", 1, 0 }, { "getInt16", "setInt16", 2, 1 }, { "getUint16", "setUint16", 2, 0 }, { "getInt32", "setInt32", 4, 1 }, { "getUint32", "setUint32", 4, 0 } };
static struct mjs *dv(void) { struct mjs *m = h_new(); mjs_set_ffi_resolver(m, rs); h_ok(m, LIB_api_dataview_js); return m; }
void H_dv(void) { struct mjs *m = dv(); int k = vs_choose(6, "type"), st = vs_choose(2, "set"), vo = vs_choose(3, "voff"), lim = vs_choose(3, "lim"), le = vs_choose(3, "le"), n = DV[k].n, big = le != 1, i; uint32_t v; char s[120]; mjs_val_t r; mjs_err_t e; int off = vo == 0 ? 0 : vo == 1 ? 3 : 5, len = lim == 0 ? MB - off : lim == 1 ? 5 : MB; int32_t idx; if (lim == 2 && vo) vs_exit();
  mk(); mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, blk)); h_setn(m, "off", off); h_setn(m, "len", len); vs_sym(&v, 4, "v"); h_setn(m, "v", DV[k].sgn ? (double) (int32_t) (n == 1 ? (int8_t) v : n == 2 ? (int16_t) v : (int32_t) v) : (double) (n == 1 ? (uint8_t) v : n == 2 ? (uint16_t) v : v)); h_ok(m, vo == 0 && lim ? "let d=DataView.create(p,undefined,len)" : "let d=DataView.create(p,off,len)"); h_ok(m, "let other=DataView.create(p,1,2)");
  vs_sym(&idx, 4, "idx"); if (vs_choose(2, "in")) { vs_assume((idx >= 0) & (idx <= len - n)); i = (int) vs_conc((uint64_t) (uint32_t) idx); } else { vs_assume((idx < 0) | (idx > len - n)); i = -1; } h_setn(m, "i", idx);
  strcpy(s, "d."); strcat(s, st ? DV[k].set : DV[k].get); strcat(s, st ? "(i,v" : "(i"); if (n > 1) strcat(s, le == 1 ? ",true)" : le == 2 ? ",false)" : ")"); else { if (le) vs_exit(); strcat(s, ")"); } e = h_run(m, s, &r);
  if (i < 0) { vs_reach("outside"); CHECK(e != MJS_OK, "outside the view is an error"); unchanged(0, 0); } else if (st) { vs_reach("set"); CHECK(e == MJS_OK, "written"); holds(off + i, n, big, v); } else { vs_reach("get"); CHECK(e == MJS_OK && mjs_is_number(r) && mjs_get_double(m, r) == spec(blk + off + i, n, big, DV[k].sgn), "value read"); unchanged(0, 0); } h_idle(m, "idle"); }
void H_dv_open(void) { struct mjs *m = dv(); int k = vs_choose(6, "type"), n = DV[k].n, i = vs_choose(MB - n + 1, "i"); char s[80] = "d."; mjs_val_t r; uint32_t v; mk(); vs_sym(&v, 4, "v"); mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, blk)); h_setn(m, "i", i); h_setn(m, "v", v); h_ok(m, "let d=DataView.create(p)"); strcat(s, DV[k].get); strcat(s, "(i)"); r = h_ok(m, s); CHECK(mjs_get_double(m, r) == spec(blk + i, n, 1, DV[k].sgn), "value read without a length"); strcpy(s, "d."); strcat(s, DV[k].set); strcat(s, "(i,v)"); h_ok(m, s); holds(i, n, 1, v); }
/* strings made from memory */
void H_mkstr(void) { struct mjs *m = scr(); int form = vs_choose(4, "form"), off = form ? vs_choose(MB + 1, "off") : 0, len = vs_choose(MB - off + 1, "len"), sp = vs_choose(2, "view"); mjs_val_t r = MJS_UNDEFINED; mjs_own(m, &r); h_setn(m, "o", off); h_setn(m, "l", len); r = h_ok(m, form == 0 ? "let s=mkstr(p,l); s" : form == 1 ? "let s=mkstr(p,o,l); s" : form == 2 ? "let s=mkstr(p,o,l,true); s" : "let s=mkstr(p,o,l,false); s"); CHECK(h_streq(m, r, (char *) old + off, len), "the bytes of the range"); (void) sp; r = h_ok(m, "let t=s+'x'; t"); CHECK(mjs_is_string(r), "usable"); if (form == 2) { uint8_t z[MB]; vs_sym(z, MB, "z"); memcpy(blk, z, MB); mjs_gc(m, 1); CHECK(h_streq(m, h_get(m, "s"), (char *) old + off, len), "a copy does not change with the memory"); free(blk); CHECK(h_streq(m, h_get(m, "s"), (char *) old + off, len), "a copy outlives the memory"); } else unchanged(0, 0); vs_reach("end"); }
void H_mkstr_bad(void) { struct mjs *m = scr(); static const char *const bad[] = { "mkstr()", "mkstr(p)", "mkstr(5,1)", "mkstr('abc',1)", "mkstr({},1)", "mkstr(p,'1')", "mkstr(p,'0',1)", "mkstr(p,0,'1')", "mkstr(p,0,{})", "mkstr(p,0,1,true,1)", "mkstr(p,true)", "mkstr(null,1)", "mkstr(p,{},1)", "mkstr(p,null,1)" }; int k = vs_choose(14, "k"); mjs_val_t r; CHECK(h_run(m, bad[k], &r) != MJS_OK, "wrong argument types are errors"); h_idle(m, "idle"); unchanged(0, 0); }
void H_mem_bad(void) { struct mjs *m = scr(); static const char *const bad[] = { "gu(5,1,0)", "gu({},1,0)", "gu(p,'1',0)", "gu(p,1)", "gu(p,1,0,0)", "gi(true,1,0)", "gi(p,{},0)", "gi(p,null,0)", "su(5,1,1,0)", "su(p,'1',1,0)", "su(p,1,1)", "si(undefined,1,1,0)", "si(p,1,p,0)", "gd(5)", "gd()", "sd(5,1)", "sd(p)", "pk(5,1)", "pk(p,'1')", "p+'1'", "p*2", "p+{}", "p/2", "p<<1", "p+p" }; int k = vs_choose(25, "k"); mjs_val_t r; CHECK(h_run(m, bad[k], &r) != MJS_OK, "wrong argument types are errors"); h_idle(m, "idle"); unchanged(0, 0); }
void H_mkstr_long(void) { static const int L[] = { 1, 5, 6, 7, 127, 128, 129, 300, 16383, 16384, 20000 }; struct mjs *m = h_new(); int n = L[vs_choose(11, "len")], off = vs_choose(3, "off"), cp = vs_choose(2, "copy"), i; uint8_t *b = (uint8_t *) malloc(n + off); const char *p; size_t l; mjs_val_t r; uint8_t c[3], x; for (i = 0; i < n + off; i++) b[i] = (uint8_t) (i * 7); vs_sym(c, 3, "c"); b[off] = c[0]; b[off + n / 2] = c[1]; b[off + n - 1] = c[2]; mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, b)); h_setn(m, "o", off); h_setn(m, "n", n); r = h_ok(m, cp ? "let s=mkstr(p,o,n,true); s" : "let s=mkstr(p,o,n); s"); if (cp) { x = b[off + n / 2]; mjs_gc(m, 1); r = h_get(m, "s"); } else x = b[off + n / 2]; p = mjs_get_string(m, &r, &l); CHECK(l == (size_t) n && (uint8_t) p[n / 2] == x && h_bytes_eq(p, (char *) b + off, n), "long string"); }
/* ---- C17 */
#define T(x) MJS_STRUCT_FIELD_TYPE_##x
static const int FT[] = { T(INT), T(BOOL), T(DOUBLE), T(FLOAT), T(CHAR_PTR), T(VOID_PTR), T(MG_STR_PTR), T(MG_STR), T(DATA), T(INT8), T(INT16), T(UINT8), T(UINT16), T(STRUCT), T(STRUCT_PTR), T(CUSTOM) };
static const int FS[] = { 4, 1, 8, 4, 8, 8, 8, 16, 0, 1, 2, 1, 2, 4, 8, 3 };
#define NFT 16
static char strs[8][12]; static struct mg_str mss[8]; static struct { int8_t a; uint8_t pad; uint16_t b; } subs[8];
static const struct mjs_c_struct_member SUBD[] = { { "a", 0, T(INT8), NULL }, { "bb", 2, T(UINT16), NULL }, { NULL, 0, T(INVALID), NULL } };
static mjs_val_t custom(struct mjs *m, const void *p) { mjs_val_t o = mjs_mk_array(m); const uint8_t *b = (const uint8_t *) p; mjs_array_push(m, o, mjs_mk_number(m, b[0] + 256 * b[2])); mjs_array_push(m, o, mjs_mk_foreign(m, (void *) p)); return o; }
static const char *const FN[] = { "f", "second member", "x3", "_", "a_much_longer_member_name", "m6", "m7", "m8" };
/* lay out field i of type index t at offset *po of b (exactly sized afterwards) */
static int al(int o, int a) { return (o + a - 1) / a * a; }
static int place(struct mjs_c_struct_member *d, int i, int t, int o, int dl, const char *nm) { int s = t == 8 ? dl : FS[t], a = t == 7 ? 8 : t == 13 ? 2 : t == 8 || t == 15 ? 1 : s; o = al(o, a ? a : 1); d[i].name = nm; d[i].offset = o; d[i].type = (enum mjs_struct_field_type) FT[t]; d[i].arg = t == 8 ? (void *) (intptr_t) dl : t == 13 || t == 14 ? (void *) SUBD : t == 15 ? (void *) custom : NULL; return o + s; }
static int nulls[8]; static uint8_t *real;
static void fill(uint8_t *b, const struct mjs_c_struct_member *d, int i, int t) { uint8_t *p = b + d[i].offset; uint64_t u; nulls[i] = 0; switch (t) { case 1: vs_assume(p[0] < 2); break; case 4: { int n = vs_choose(3, "slen") * 4, k; nulls[i] = n == 8; if (nulls[i]) { memset(p, 0, 8); break; } vs_sym(strs[i], 11, "str"); for (k = 0; k < n; k++) vs_assume(strs[i][k] != 0); strs[i][n] = 0; { char *q = (char *) malloc(n + 1); memcpy(q, strs[i], n + 1); memcpy(p, &q, 8); } break; } case 5: memcpy(&u, p, 8); vs_assume(u < 1ull << 48); break; case 6: case 7: { int n = vs_choose(3, "mlen") * 5; struct mg_str *s = &mss[i]; vs_sym(strs[i], 11, "mstr"); s->len = n; { char *q = (char *) malloc(n ? n : 1); memcpy(q, strs[i], n); s->p = n ? q : NULL; } nulls[i] = t == 6 && vs_choose(2, "null"); if (t == 7) memcpy(p, s, 16); else { if (nulls[i]) s = NULL; memcpy(p, &s, 8); } break; } case 14: { void *q = &subs[i]; vs_sym(&subs[i], 4, "sub"); nulls[i] = vs_choose(2, "null"); if (nulls[i]) q = NULL; memcpy(p, &q, 8); } } }
static void subcheck(struct mjs *m, mjs_val_t v, const uint8_t *p) { mjs_val_t it = MJS_UNDEFINED; int n = 0; CHECK(mjs_is_object(v), "nested struct is an object"); CHECK(mjs_get_double(m, mjs_get(m, v, "a", 1)) == (double) (int8_t) p[0], "nested member"); { uint16_t w; memcpy(&w, p + 2, 2); CHECK(mjs_get_double(m, mjs_get(m, v, "bb", 2)) == w, "nested second member"); } while (mjs_next(m, v, &it) != MJS_UNDEFINED) n++; CHECK(n == 2, "nested member count"); }
static void check(struct mjs *m, mjs_val_t o, const uint8_t *b, const struct mjs_c_struct_member *d, int i, int t) { const uint8_t *p = b + d[i].offset; mjs_val_t v = mjs_get(m, o, d[i].name, ~0); double num = 0; int isnum = 1; int32_t i32; int16_t i16; uint16_t u16; float f; double db; uint64_t u;
  switch (t) { case 0: memcpy(&i32, p, 4); num = i32; break; case 9: num = (int8_t) *p; break; case 10: memcpy(&i16, p, 2); num = i16; break; case 11: num = *p; break; case 12: memcpy(&u16, p, 2); num = u16; break; case 2: memcpy(&db, p, 8); num = db; break; case 3: memcpy(&f, p, 4); num = f; break; default: isnum = 0; }
  if (isnum) { CHECK(mjs_is_number(v) && h_same(mjs_get_double(m, v), num), "number member"); return; }
  switch (t) { case 1: CHECK(mjs_is_boolean(v) && !!mjs_get_bool(m, v) == *p, "bool member"); break; case 4: if (nulls[i]) CHECK(mjs_is_null(v), "NULL string"); else CHECK(h_streq(m, v, strs[i], strlen(strs[i])), "string member"); break; case 5: memcpy(&u, p, 8); CHECK(u ? mjs_is_foreign(v) && (uint64_t) (uintptr_t) mjs_get_ptr(m, v) == u : mjs_is_null(v) || mjs_is_foreign(v), "pointer member"); break; case 6: case 7: if (nulls[i]) CHECK(mjs_is_null(v), "NULL counted string"); else CHECK(h_streq(m, v, strs[i], mss[i].len), "counted string member"); break; case 8: CHECK(h_streq(m, v, (const char *) p, (size_t) d[i].arg), "data member"); break; case 13: subcheck(m, v, p); break; case 14: if (nulls[i]) CHECK(mjs_is_null(v), "NULL struct"); else subcheck(m, v, (const uint8_t *) &subs[i]); break; case 15: CHECK(mjs_is_array(v) && mjs_get_double(m, mjs_array_get(m, v, 0)) == p[0] + 256 * p[2] && mjs_get_ptr(m, mjs_array_get(m, v, 1)) == (void *) (real + d[i].offset), "custom member"); } }
static void conv(int n, const int *t, int via) { struct mjs *m = h_new(); struct mjs_c_struct_member *d = (struct mjs_c_struct_member *) calloc(n + 1, sizeof *d); int o = vs_choose(2, "pad") * 3, i, cnt = 0; uint8_t *b, *keep; mjs_val_t r = MJS_UNDEFINED, it = MJS_UNDEFINED, k; for (i = 0; i < n; i++) o = place(d, i, t[i], o, t[i] == 8 ? vs_choose(3, "dlen") * 4 : 0, FN[i]); b = (uint8_t *) malloc(o ? o : 1); vs_sym(b, o, "bytes"); real = b; for (i = 0; i < n; i++) fill(b, d, i, t[i]); keep = (uint8_t *) malloc(o ? o : 1); memcpy(keep, b, o);
  mjs_own(m, &r); if (via) { mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, b)); mjs_set(m, mjs_get_global(m), "d", 1, mjs_mk_foreign(m, d)); r = h_ok(m, "let r=s2o(p,d); gc(true); r"); } else r = mjs_struct_to_obj(m, b, d); CHECK(mjs_is_object(r), "an object"); mjs_gc(m, 1);
  while ((k = mjs_next(m, r, &it)) != MJS_UNDEFINED) { size_t l; const char *q = mjs_get_string(m, &k, &l); int hit = 0; for (i = 0; i < n; i++) hit |= strlen(FN[i]) == l && !memcmp(q, FN[i], l); CHECK(hit, "only described members"); cnt++; } CHECK(cnt == n, "one property per member"); for (i = 0; i < n; i++) check(m, r, keep, d, i, t[i]); CHECK(h_bytes_eq((char *) b, (char *) keep, o), "the struct is not changed"); vs_reach("end"); }
void H_s2o_two(void) { int t[3]; t[0] = vs_choose(NFT, "t0"); t[1] = vs_choose(NFT, "t1"); conv(2, t, (t[0] + t[1]) % 2); }
void H_s2o_one(void) { int t[3]; t[0] = vs_choose(NFT, "t0"); conv(1, t, vs_choose(2, "via")); }
#ifndef NS
#define NS 5
#endif
void H_s2o_many(void) { int t[8], i, s = vs_choose(NFT, "start"), st = 1 + 2 * vs_choose(8, "step"); for (i = 0; i < NS; i++) { t[i] = (s + i * st) % NFT; } conv(NS, t, s % 2); }
/* nested levels, null structs, wrong arguments */
struct in2 { double d; char *s; }; struct in1 { int16_t h; struct in2 e; struct in2 *p; }; struct outer { uint8_t u; struct in1 i; struct in1 *q; };
static const struct mjs_c_struct_member D2[] = { { "d", offsetof(struct in2, d), T(DOUBLE), NULL }, { "s", offsetof(struct in2, s), T(CHAR_PTR), NULL }, { NULL, 0, T(INVALID), NULL } }, D1[] = { { "h", offsetof(struct in1, h), T(INT16), NULL }, { "e", offsetof(struct in1, e), T(STRUCT), D2 }, { "p", offsetof(struct in1, p), T(STRUCT_PTR), D2 }, { NULL, 0, T(INVALID), NULL } }, D0[] = { { "u", offsetof(struct outer, u), T(UINT8), NULL }, { "i", offsetof(struct outer, i), T(STRUCT), D1 }, { "q", offsetof(struct outer, q), T(STRUCT_PTR), D1 }, { NULL, 0, T(INVALID), NULL } }, DE[] = { { NULL, 0, T(INVALID), NULL } };
static void is2(struct mjs *m, mjs_val_t v, const struct in2 *x) { CHECK(mjs_is_object(v) && h_same(mjs_get_double(m, mjs_get(m, v, "d", 1)), x->d), "level 2 double"); if (x->s) CHECK(h_streq(m, mjs_get(m, v, "s", 1), x->s, strlen(x->s)), "level 2 string"); else CHECK(mjs_is_null(mjs_get(m, v, "s", 1)), "level 2 NULL"); }
static void is1(struct mjs *m, mjs_val_t v, const struct in1 *x) { CHECK(mjs_is_object(v) && mjs_get_double(m, mjs_get(m, v, "h", 1)) == x->h, "level 1 number"); is2(m, mjs_get(m, v, "e", 1), &x->e); if (x->p) is2(m, mjs_get(m, v, "p", 1), x->p); else CHECK(mjs_is_null(mjs_get(m, v, "p", 1)), "level 1 NULL"); }
void H_s2o_nest(void) { struct mjs *m = h_new(); struct outer *o = (struct outer *) calloc(1, sizeof *o); struct in1 *q = (struct in1 *) calloc(1, sizeof *q); struct in2 *z = (struct in2 *) calloc(1, sizeof *z); mjs_val_t r; vs_sym(&o->u, 1, "u"); vs_sym(&o->i.h, 2, "h"); vs_sym(&q->h, 2, "h2"); vs_sym(&z->d, 8, "d"); vs_sym(&o->i.e.d, 8, "d1"); vs_sym(&q->e.d, 8, "d2"); o->i.e.s = "inner string"; q->e.s = vs_choose(2, "s") ? "" : NULL; o->i.p = vs_choose(2, "p") ? z : NULL; q->p = vs_choose(2, "pp") ? z : NULL; z->s = "z"; o->q = vs_choose(2, "q") ? q : NULL; mjs_own(m, &r); r = mjs_struct_to_obj(m, o, D0); CHECK(mjs_get_double(m, mjs_get(m, r, "u", 1)) == o->u, "top number"); is1(m, mjs_get(m, r, "i", 1), &o->i); if (o->q) is1(m, mjs_get(m, r, "q", 1), q); else CHECK(mjs_is_null(mjs_get(m, r, "q", 1)), "top NULL"); r = mjs_struct_to_obj(m, o, DE); { mjs_val_t it = MJS_UNDEFINED; CHECK(mjs_is_object(r) && mjs_next(m, r, &it) == MJS_UNDEFINED, "empty description"); } }
void H_s2o_null(void) { struct mjs *m = h_new(); static const char *const S[] = { "s2o(null,d)", "s2o(n,d)", "s2o(p,null)", "s2o(p,n)", "s2o()", "s2o(p)", "s2o(5,d)", "s2o('x','y')", "s2o({},d)" }; int k = vs_choose(9, "k"); struct outer o; mjs_val_t r; memset(&o, 0, sizeof o); mjs_set(m, mjs_get_global(m), "p", 1, mjs_mk_foreign(m, &o)); mjs_set(m, mjs_get_global(m), "n", 1, mjs_mk_foreign(m, NULL)); mjs_set(m, mjs_get_global(m), "d", 1, mjs_mk_foreign(m, (void *) D0)); if (h_run(m, S[k], &r) == MJS_OK) CHECK(mjs_is_undefined(r), "nothing to convert"); h_idle(m, "idle"); CHECK(mjs_is_undefined(mjs_struct_to_obj(m, NULL, D0)) && mjs_is_undefined(mjs_struct_to_obj(m, &o, NULL)), "nothing to convert"); }
