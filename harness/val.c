#include "eng.h"
/* C09: values keep type and payload. kinds: bit per predicate */
enum { K_NUM = 1, K_BOOL = 2, K_STR = 4, K_NULL = 8, K_UNDEF = 16, K_PTR = 32, K_FUNC = 64, K_OBJ = 128, K_ARR = 256, K_FFI = 512 };
static int kinds(mjs_val_t v) { return (!!mjs_is_number(v)) * K_NUM | (!!mjs_is_boolean(v)) * K_BOOL | (!!mjs_is_string(v)) * K_STR | (!!mjs_is_null(v)) * K_NULL | (!!mjs_is_undefined(v)) * K_UNDEF | (!!mjs_is_foreign(v)) * K_PTR | (!!mjs_is_function(v)) * K_FUNC | (!!mjs_is_object(v)) * K_OBJ | (!!mjs_is_array(v)) * K_ARR; }
static const char *const DEFS = "let id=function(a){return a;};let o={};let arr=[0];let loc=function(a){let b=a;{let c=b;b=c;}return b;};let num=function(a,b,c){return c;};";
static const char *const PASS[] = { "v", "id(v)", "o.k=v;o.k", "o['k']=v;o['k']", "arr[0]=v;arr[0]", "arr.push(v);arr[arr.length-1]", "loc(v)", "num(1,2,v)", "({p:v}).p", "[1,v][1]", "let q=v;q", "v||v", "1&&v", "false||v", "true?v:0", "false?0:v", "(v)", "o.m=v;let r=0;for(let k in {m:1}){r=o[k];}r", "R(v)", "this.w" };
static void f_R(struct mjs *m) { mjs_return(m, mjs_arg(m, 0)); }
/* truthiness in every context + typeof; ty: expected name */
static void contexts(struct mjs *m, mjs_val_t v, int truthy, const char *ty, int k) {
  mjs_val_t r; static const char *const T[] = { "!!v", "!(!v)", "v?true:false", "let t=false;if(v){t=true;}t", "let t=false;while(v){t=true;break;}t", "let t=false;for(let i=0;v;i++){t=true;break;}t", "(v&&true)===true", "let t=true;if(!v){t=false;}else{t=true;}t", "let t=1;v||(t=2);t===1" };
  mjs_set(m, mjs_get_global(m), "v", ~0, v); CHECK(kinds(v) == k, "exactly the predicates of its type"); CHECK(mjs_get(m, mjs_get_global(m), "v", ~0) == v, "stored unchanged");
  r = h_ok(m, T[vs_choose(9, "ctx")]); CHECK(mjs_is_boolean(r), "truth value"); CHECK(!!mjs_get_bool(m, r) == !!truthy, "truthiness depends only on type and value");
  r = h_ok(m, "typeof v"); CHECK(h_streq(m, r, ty, strlen(ty)), "typeof"); r = h_ok(m, "typeof(v)+'!'"); CHECK(mjs_is_string(r), "typeof is a string"); CHECK(strcmp(mjs_typeof(v), ty) == 0, "typeof for the host");
  r = h_ok(m, "isNaN(v)"); CHECK(mjs_is_boolean(r) && !!mjs_get_bool(m, r) == (k == K_NUM && h_isnan(mjs_get_double(m, v))), "isNaN is true for NaN only");
  if (!(k == K_NUM && h_isnan(mjs_get_double(m, v)))) { r = h_ok(m, "v===v"); CHECK(mjs_is_boolean(r) && mjs_get_bool(m, r), "a value equals itself"); }
}
static mjs_val_t passed(struct mjs *m, mjs_val_t v) { mjs_val_t r; int i = vs_choose(20, "pass"); mjs_own(m, &v); mjs_set(m, mjs_get_global(m), "v", ~0, v); h_setf(m, "R", f_R); h_ok(m, DEFS); if (i == 19) { mjs_val_t o = mjs_mk_object(m), a = MJS_UNDEFINED; mjs_set(m, o, "w", ~0, v); mjs_own(m, &o); h_ok(m, "let f=function(){return this.w;};"); CHECK(mjs_call(m, &a, h_get(m, "f"), o, 0) == MJS_OK, "call"); mjs_disown(m, &o); r = a; } else r = h_ok(m, PASS[i]); mjs_disown(m, &v); return r; }
void H_val_number(void) { struct mjs *m = h_new(); double x; vs_sym(&x, 8, "x"); mjs_val_t v = mjs_mk_number(m, x); CHECK(kinds(v) == K_NUM, "a number is a number only"); CHECK(h_same(mjs_get_double(m, v), x), "a number is unboxed unchanged"); CHECK(mjs_get_bool(m, v) == 0 && mjs_get_ptr(m, v) == NULL, "other accessors do not misread a number");
  contexts(m, v, x == x && x != 0, "number", K_NUM); vs_reach("end"); }
void H_val_number_pass(void) { struct mjs *m = h_new(); double x; vs_sym(&x, 8, "x"); mjs_val_t v = mjs_mk_number(m, x), r = passed(m, v); int i; CHECK(mjs_is_number(r), "still a number"); (void) i; CHECK(h_same(mjs_get_double(m, r), x), "a number passes through a script unchanged"); vs_reach("end"); }
void H_val_int(void) { struct mjs *m = h_new(); int32_t x; vs_sym(&x, 4, "x"); mjs_val_t v = mjs_mk_number(m, x); CHECK(mjs_get_int(m, v) == x && mjs_get_int32(m, v) == x, "integer access"); CHECK(mjs_get_int(m, h_ok(m, "")) == mjs_get_int(m, MJS_UNDEFINED), "no value"); uint32_t u; vs_sym(&u, 4, "u"); CHECK((uint32_t) mjs_get_int(m, mjs_mk_number(m, u)) == u, "unsigned integer access"); }
void H_val_bool(void) { struct mjs *m = h_new(); int x; vs_sym(&x, 4, "x"); mjs_val_t v = mjs_mk_boolean(m, x); CHECK(!!mjs_get_bool(m, v) == (x != 0), "a boolean is unboxed unchanged"); CHECK(v == mjs_mk_boolean(m, x ? 7 : 0), "equal booleans are the same value"); CHECK(mjs_get_ptr(m, v) == NULL, "not a pointer"); contexts(m, v, x != 0, "boolean", K_BOOL); CHECK(passed(m, v) == v, "a boolean passes through a script unchanged"); }
void H_val_ptr(void) { struct mjs *m = h_new(); uint64_t p; vs_sym(&p, 8, "p"); vs_assume(p < (1ull << 48)); mjs_val_t v = mjs_mk_foreign(m, (void *) p), w; CHECK((uint64_t) mjs_get_ptr(m, v) == p, "a pointer is unboxed unchanged"); CHECK(mjs_get_bool(m, v) == 0, "not a boolean"); contexts(m, v, 1, "foreign_ptr", K_PTR); w = passed(m, v); CHECK(w == v && (uint64_t) mjs_get_ptr(m, w) == p, "a pointer passes through a script unchanged"); v = mjs_mk_foreign_func(m, (mjs_func_ptr_t) p); CHECK(mjs_is_foreign(v) && (uint64_t) mjs_get_ptr(m, v) == p, "a host function is unboxed unchanged"); CHECK(m->error == MJS_OK, "no error"); }
void H_val_badptr(void) { struct mjs *m = h_new(); uint64_t p; vs_sym(&p, 8, "p"); vs_assume(p >> 52 != 0 && p >> 52 != 0xfff); mjs_mk_foreign(m, (void *) p); CHECK(m->error != MJS_OK, "a pointer that cannot be represented is an error"); }
void H_val_str(void) { struct mjs *m = h_new(); char b[12]; int n = vs_choose(12, "len"), kind = vs_choose(2, "copy"); size_t l = 99; const char *s; mjs_val_t v, r; vs_sym(b, 12, "b"); v = mjs_mk_string(m, b, n, kind); mjs_own(m, &v); s = mjs_get_string(m, &v, &l); CHECK(l == (size_t) n && h_bytes_eq(s, b, n), "a string is unboxed unchanged"); CHECK(mjs_get_ptr(m, v) == NULL && mjs_get_bool(m, v) == 0, "not something else"); contexts(m, v, n > 0, "string", K_STR); r = passed(m, v); CHECK(h_streq(m, r, b, n), "a string passes through a script unchanged"); s = mjs_get_string(m, &v, &l); CHECK(l == (size_t) n && h_bytes_eq(s, b, n), "still the same"); mjs_disown(m, &v); vs_reach("end"); }
void H_val_cstr(void) { struct mjs *m = h_new(); char b[9]; int i, n = vs_choose(8, "len"), z = vs_choose(8, "zero"), kind = vs_choose(3, "kind"); const char *s; mjs_val_t v; vs_sym(b, 8, "b"); b[8] = 0; for (i = 0; i < n; i++) if (i == z) b[i] = 0; else vs_assume(b[i] != 0); b[n] = 0;
  v = kind == 2 ? mjs_mk_string(m, b, ~0, 1) : mjs_mk_string(m, b, n, kind); s = mjs_get_cstring(m, &v); if (z < n && kind != 2) { CHECK(s == NULL, "a string with a NUL byte inside is not a C string"); vs_reach("embedded"); } else { CHECK(s != NULL && strcmp(s, b) == 0, "C string"); vs_reach("plain"); } CHECK(mjs_strcmp(m, &v, b, z < n && kind == 2 ? z : n) == 0, "comparison with bytes"); }
void H_val_other(void) { struct mjs *m = h_new(); int i; mjs_val_t v; static const char *const src[] = { "{a:1}", "[1,2]", "function(a){return a;}", "null", "undefined", "ffi('int abs(int)')", "print", "Object", "[]", "{}" };
  static const int k[] = { K_OBJ, K_OBJ | K_ARR, K_FUNC, K_NULL, K_UNDEF, 0, K_PTR, K_OBJ, K_OBJ | K_ARR, K_OBJ }; static const char *const ty[] = { "object", "array", "function", "null", "undefined", "function", "foreign_ptr", "object", "array", "object" };
  i = vs_choose(10, "value"); if (i == 5) v = MJS_TAG_FUNCTION_FFI | 0x10; else { char b[64] = "let a="; strcat(b, src[i]); strcat(b, ";a"); v = h_ok(m, b); } if (i != 5) { contexts(m, v, i != 3 && i != 4, ty[i], k[i]); CHECK(passed(m, v) == v, "a reference passes through a script unchanged"); } else CHECK(kinds(v) == 0 && strcmp(mjs_typeof(v), "function") == 0, "imported function"); CHECK(mjs_is_null(mjs_mk_null()) && mjs_is_undefined(mjs_mk_undefined()), "constants"); }
void H_val_func(void) { struct mjs *m = h_new(); uint32_t o; vs_sym(&o, 4, "o"); mjs_val_t v = mjs_mk_function(m, o); CHECK(kinds(v) == K_FUNC, "a function is a function only"); CHECK(mjs_get_func_addr(v) == o, "a function is unboxed unchanged"); contexts(m, v, 1, "function", K_FUNC); }
/* no bit pattern answers to two types */
void H_val_any(void) { uint64_t v; int k, n = 0; vs_sym(&v, 8, "v"); k = kinds(v); if (k & K_ARR) { CHECK(k & K_OBJ, "an array is an object"); k &= ~K_ARR; } CHECK((k & (k - 1)) == 0, "at most one type"); n = k != 0; if (k & K_NUM) CHECK(v == MJS_TAG_NAN || !h_isnan(u2d(v)), "numbers are not NaN patterns of other types"); (void) n; double d = u2d(v); if (!h_isnan(d)) CHECK(k == K_NUM, "every double that is not NaN is a number"); }
