/* Stand-in for cc, ar and rm (by the name it is started with): fast, deterministic "objects" that record what they
 * were made from.  FAKE_FAULT=tool:text:action makes the calls mentioning the text fail; FAKE_TIME dates the outputs. */
#include <dirent.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
static uint64_t H = 0xcbf29ce484222325ull;
static void mixin(const char* p, size_t n) { while (n--) { H ^= (unsigned char)*p++; H *= 0x100000001b3ull; } }
static int file(const char* n) {
  FILE* f = fopen(n, "rb"); if (!f) return 0;
  char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) mixin(b, k);
  fclose(f); return 1;
}
static int cmp(const void* a, const void* b) { return strcmp(*(char* const*)a, *(char* const*)b); }
static void headers(const char* d) {
  char* n[500]; int c = 0; DIR* D = opendir(d); if (!D) return; struct dirent* e;
  while ((e = readdir(D)) && c < 500) { char* x = strrchr(e->d_name, '.'); if (x && (!strcmp(x, ".h") || !strcmp(x, ".inc") || !strcmp(x, ".macros"))) { size_t l = strlen(d) + strlen(e->d_name) + 2; n[c] = malloc(l); snprintf(n[c++], l, "%s/%s", d, e->d_name); } }
  closedir(D); qsort(n, c, sizeof *n, cmp);
  for (int i = 0; i < c; ++i) { mixin(strrchr(n[i], '/'), strlen(strrchr(n[i], '/'))); file(n[i]); }
}
int main(int argc, char** argv) {
  const char* me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
  int action = 0; const char* ff = getenv("FAKE_FAULT"); char tool[16], text[64], act[16];
  if (ff && sscanf(ff, "%15[^:]:%63[^:]:%15s", tool, text, act) == 3 && !strcmp(tool, me)) {
    char all[20000] = ""; for (int i = 1; i < argc; ++i) { strncat(all, argv[i], sizeof all - strlen(all) - 2); strcat(all, " "); }
    if (!strcmp(text, "*") || strstr(all, text)) action = !strcmp(act, "exit") ? 1 : !strcmp(act, "torn") ? 2 : !strcmp(act, "late") ? 4 : 3;
  }
  if (action == 3) { raise(SIGKILL); }
  if (action == 1) return 1;
  if (!strcmp(me, "rm")) { int r = 0; for (int i = 1; i < argc; ++i) if (argv[i][0] != '-' && argv[i][0] != '/' && !strstr(argv[i], "..")) { if (action == 2 && i > argc / 2) return 1; if (unlink(argv[i]) && access(argv[i], F_OK) == 0) r = 1; } return action ? 1 : r; }
  const char* out = 0; int compile = 0, first = 1, bad = 0;
  if (!strcmp(me, "ar")) { if (argc < 3) return 1; out = argv[2]; first = 3; }
  for (int i = first; i < argc; ++i) {
    if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
    else if (!strcmp(argv[i], "-c")) compile = 1;
    else if (!strncmp(argv[i], "-I", 2)) headers(argv[i][2] ? argv[i] + 2 : argv[++i]);
    else if (argv[i][0] == '-') mixin(argv[i], strlen(argv[i]));
    else { mixin(argv[i], strlen(argv[i])); if (!file(argv[i])) bad = 1; }
  }
  if (!out || bad) return 1;
  FILE* f = fopen(out, "wb"); if (!f) return 1;
  if (action == 2) fputs("EXE torn", f);
  else fprintf(f, "%s %016llx\n", compile ? "OBJ" : !strcmp(me, "ar") ? "LIB" : "EXE", (unsigned long long)H);
  if (fclose(f)) return 1;
  if (!compile) chmod(out, 0755);
  const char* t = getenv("FAKE_TIME");
  if (t) { struct timeval tv[2] = {{atol(t), 0}, {atol(t), 0}}; utimes(out, tv); }
  return action == 4 || action == 2;
}
