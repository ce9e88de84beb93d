#include "eng.h"
#include "cap.h"
/* C27: the mjs command. Items given to it print a mark, give a value or fail. */
int mjs_cli_main(int argc, char *argv[]);
#ifndef ITEMS
#define ITEMS 3
#endif
static char TXT[ITEMS][64], NAME[ITEMS][8]; static int KIND[ITEMS], READS[ITEMS];
const char *vs_file_data(const char *name, size_t *len) { int i; for (i = 0; i < ITEMS; i++) if (KIND[i] && !strcmp(name, NAME[i])) { READS[i]++; *len = strlen(TXT[i]); return TXT[i]; } return NULL; }
static int digits(int v, char *o) { o[0] = '0' + v / 10; o[1] = '0' + v % 10; o[2] = 0; return 2; }
/* a later item sees the variable of the first */
static int see(const int *k, int i) { return i > 0 && (k[0] == 0 || k[0] == 3 || k[0] == 11); }
/* kinds: 0 -e fine  1 -e dies  2 -e syntax error  3 -f fine  4 -f dies  5 -f no such file  6 -l N  7 -j  8 an unknown flag  9 -h  10 -e without its argument ; then names of files: 11 fine 12 dies 13 missing */
void H_cli(void) { size_t live = vs_live(); char *av[2 * ITEMS + 2]; int ac = 0, i, n = vs_choose(ITEMS + 1, "items"), files = 0, k[ITEMS], val[ITEMS], rc, lvl = -1; uint8_t sy[ITEMS]; char want[300], fin[60]; int wn = 0; static const char *const nk[] = { "k0", "k1", "k2", "k3" }, *const nv[] = { "v0", "v1", "v2", "v3" }; int stop = 0; /* 1 error 2 usage 3 help */ const char *emsg = NULL; char msg[40]; int last = -1, unk = -1, old = cs_log_level;
  av[ac++] = "mjs"; for (i = 0; i < n; i++) { int c; k[i] = vs_choose(14, nk[i]); if (k[i] > 10) files = 1; else vs_assume(!files); if (k[i] == 10) vs_assume(i == n - 1); vs_sym(&sy[i], 1, nv[i]); vs_assume(sy[i] < 100); val[i] = sy[i]; snprintf(NAME[i], 8, "%s%d.%s", vs_choose(2, "dir") ? "d/" : "f", i, "js"); 
    { char d[4]; digits(val[i], d); c = k[i] == 0 || k[i] == 3 || k[i] == 11 ? 0 : 1; if (!c) snprintf(TXT[i], 64, see(k, i) ? "print('m%d',v0);let v%d=1%s;v%d" : "print('m%d');let v%d=1%s;v%d", i, i, "##", i); else if (k[i] == 2) snprintf(TXT[i], 64, "print('m%d');let v=1%s;)", i, "##"); else snprintf(TXT[i], 64, "print('m%d');\ndie('E1%s');1", i, "##"); { char *q = strstr(TXT[i], "##"); q[0] = d[0]; q[1] = d[1]; } }
    switch (k[i]) { case 0: case 1: case 2: av[ac++] = "-e"; av[ac++] = TXT[i]; break; case 3: case 4: case 5: KIND[i] = k[i] != 5; av[ac++] = "-f"; av[ac++] = NAME[i]; break; case 6: av[ac++] = "-l"; { static char L[ITEMS][4]; snprintf(L[i], 4, "%d", vs_choose(2, "level")); av[ac++] = L[i]; } break; case 7: av[ac++] = "-j"; break; case 8: av[ac++] = vs_choose(2, "flag") ? "-q" : "--what"; break; case 9: av[ac++] = vs_choose(2, "help") ? "-h" : "--help"; break; case 10: av[ac++] = "-e"; break; default: KIND[i] = k[i] != 13; av[ac++] = NAME[i]; } }
  av[ac] = NULL;
  /* what should be seen */
  for (i = 0; i < n && !stop; i++) { switch (k[i]) { case 0: case 3: case 11: wn += snprintf(want + wn, 20, see(k, i) ? "m%d 1## \n" : "m%d \n", i); if (see(k, i)) { digits(val[0], want + wn - 4); want[wn - 2] = ' '; } last = i; break; case 1: case 4: case 12: wn += snprintf(want + wn, 20, "m%d \n", i); stop = 1; snprintf(msg, 40, "E1##"); digits(val[i], msg + 2); emsg = msg; break; case 2: stop = 1; break; case 5: case 13: stop = 1; break; case 6: lvl = 1; break; case 7: break; case 9: stop = 3; break; default: stop = 2; unk = i; } }
  { int failed = i - 1; rc = mjs_cli_main(ac, av);
  for (i = 0; i < n; i++) { int run = stop ? i <= failed : 1; if (KIND[i]) CHECK(READS[i] == run, "each file is read once, and none after a failure"); }
  CHECK(FOUT.n >= (size_t) wn && !memcmp(FOUT.b, want, wn), "the items run in order");
  if (stop == 0) { if (last >= 0) { snprintf(fin, 60, "1##\n"); digits(val[last], fin + 1); fin[3] = '\n'; } else strcpy(fin, "undefined\n"); CHECK(FOUT.n == wn + strlen(fin) && h_bytes_eq(FOUT.b + wn, fin, strlen(fin)), "then the last value is printed"); CHECK(rc == 0, "success"); CHECK(FERR.n == 0, "no complaint"); CHECK(vs_live() == live, "nothing leaks"); }
  else if (stop == 1) { char *o = FOUT.b + wn; FOUT.b[FOUT.n] = 0; if (emsg) { size_t l = strlen(emsg); CHECK(!strncmp(o, "  at ", 5), "the stack trace"); CHECK(FOUT.n > l + 12 && h_bytes_eq(FOUT.b + FOUT.n - l - 1, emsg, l) && !memcmp(FOUT.b + FOUT.n - l - 13, "\nMJS error: ", 12), "the message"); } else if (k[failed] != 2) CHECK(!strncmp(o, "MJS error: ", 11) && strstr(o, NAME[failed]), "the name of the file"); else CHECK(strstr(o, "MJS error: ") != NULL, "an error"); CHECK(FOUT.b[FOUT.n - 1] == '\n', "a line"); CHECK(FERR.n == 0, "no complaint"); CHECK(vs_live() == live, "nothing leaks"); }
  else if (stop == 2) { CHECK(rc != 0, "failure"); FERR.b[FERR.n] = 0; CHECK(FOUT.n == (size_t) wn && FERR.n > 0 && strstr(FERR.b, k[unk] == 10 ? "-e" : "-"), "the flag is named"); }
  else CHECK(rc == 0 && FOUT.n > (size_t) wn + 50 && FERR.n == 0, "help"); }
  (void) lvl; (void) old; vs_reach("end"); if (stop == 0) vs_reach("value"); if (stop == 1) vs_reach("error"); if (stop == 2) vs_reach("usage"); }
