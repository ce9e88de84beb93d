#include "eng.h"
/* C01: whatever the script text is, executing it is memory safe, ends, leaves the engine usable and leaks nothing. */
static void run_and_destroy(const char *src) {
  size_t live0 = vs_live(); struct mjs *m = h_new(); mjs_val_t r = MJS_UNDEFINED; mjs_err_t e = mjs_exec(m, src, &r);
  if (e == MJS_OK) vs_reach("ok"); else { vs_reach("err"); const char *s = mjs_strerror(m, e); CHECK(s != NULL && strlen(s) > 0, "an error has a message"); }
  h_idle(m, "the engine is idle after a script");
  mjs_val_t r2 = MJS_UNDEFINED; CHECK(mjs_exec(m, "1+2*3", &r2) == MJS_OK && mjs_is_number(r2) && mjs_get_double(m, r2) == 7, "the engine still works afterwards");
  mjs_destroy(m); CHECK(vs_live() == live0, "destroying the engine releases everything");
}
#ifndef NB
#define NB 3
#endif
void H_src_raw(void) { char *b = malloc(NB + 1); vs_sym(b, NB, "src"); b[NB] = 0; run_and_destroy(b); free(b); }
/* a hole of NB symbolic bytes in a template ('@' marks the hole) */
static const char *const tmpl[] = {
  "let a=@;", "let o={a:1,b:[2]};o.@;", "let a=[1,2];a[@];", "'@'", "'ab\\@'", "let kkk=0;for(kkk=0;kkk<2;kkk++){@}", "let kkk=0;for(@;kkk<2;kkk++){}", "if(@){1}else{2}",
  "if(1){@}else{@}", "let f=function(x,y){@};f(1);", "let f=function(@){};f(1);", "let o={@};", "let o={a@};", "[1,@]", "/*@", "//@\n1", "1@", "0x@", "1e@", "'\\u@'", "1.5@2", "let x=2;x@=3;x;",
  "let x=2;x@;", "-@", "(@)", "1?@:2", "let kkk=0;while(kkk<1){kkk++;@}", "return @", "JSON.stringify(@)", "JSON.parse('@')", "let a='abc';a.slice(@)", "ffi('@')", "ffi('int f(@)')", "chr(@)", "mkstr(@)",
  "let a=[1,2,3];a.splice(@)", "let f=function(){return this};f@;", "typeof @", "for(let kkk in @){kkk}", "isNaN(@)", "let a={};a['@']=1;", "die(@)", "Object.create(@)", "'abc'.indexOf(@)", "S2O(@)", "gc(@)", "load(@)", "fstr(@)", "NaN@0", "\"@\"", "'abc'[@]", "function(){@}()", "'xyz'.at(@)", "mkstr(null,@)", "{@}", "@;1", "1;@",
};
#define NT ((int) (sizeof(tmpl) / sizeof(tmpl[0])))
void H_src_tmpl(void) {
  int t = vs_case(), k; const char *p; char *b, *q; 
  for (k = t; k < NT; k += NSPLIT) ; 
  k = vs_choose((NT - t + NSPLIT - 1) / NSPLIT, "tmpl") * NSPLIT + t; p = tmpl[k];
  { char hole[NB]; size_t i; vs_sym(hole, NB, "hole"); b = malloc(strlen(p) + 3 * NB + 1); q = b;
    for (; *p; p++) if (*p == '@') for (i = 0; i < NB; i++) *q++ = hole[i]; else *q++ = *p; *q = 0; }
  run_and_destroy(b); free(b);
}
/* token sequences: every position holds a symbolic index into the token table */
#ifndef NTOK
#define NTOK 4
#endif
static const char toks[][9] = {
  "a", "b", "1", "'s'", "(", ")", "{", "}", "[", "]", ";", ",", ".", ":", "?", "=", "+", "-", "++", "+=", "===", "<", "!", "&&", "||", "let", "if", "else", "function", "return", "break", "continue", "in", "for", "while", "typeof", "this", "null", "case", "x:",
};
#define NTK ((int) (sizeof(toks) / sizeof(toks[0])))
static void tokseq(const char *pre, const char *post) {
  unsigned char ix[NTOK]; size_t i, j, l0 = strlen(pre), l1 = strlen(post); char *b = malloc(l0 + NTOK * 9 + l1 + 1); vs_sym(ix, NTOK, "tok");
  memcpy(b, pre, l0);
  for (i = 0; i < NTOK; i++) { ASSUME(ix[i] < NTK); for (j = 0; j < 8; j++) { char c = toks[ix[i]][j]; b[l0 + i * 9 + j] = c == 0 ? ' ' : c; } b[l0 + i * 9 + 8] = ' '; }
  memcpy(b + l0 + NTOK * 9, post, l1 + 1); run_and_destroy(b); free(b);
}
void H_src_tok(void) { tokseq("if(0){let a=1;let b={};", "}"); }
void H_src_tok_run(void) { tokseq("let a=1;let b={a:2,f:function(x){return x}};a=", ""); }
