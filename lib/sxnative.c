// Native implementation of the verification API: replays one recorded model (choices and symbol bytes) against the real code.
// Input file: lines "S name hexbytes" / "C name value", in the order the executor created them.
#include "sx.h"
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char* names[65536]; static char* vals[65536]; static char kinds[65536]; static int used[65536], n; static int failed;
void harness_entry(void);
static int find(char k, const char* name) { for (int i = 0; i < n; i++) if (!used[i] && kinds[i] == k && !strcmp(names[i], name)) { used[i] = 1; return i; } return -1; }
void sx_make_symbolic(void* p, unsigned long sz, const char* name) { memset(p, 0, sz); int i = find('S', name); if (i < 0) return; for (unsigned long j = 0; j < sz && vals[i][2 * j]; j++) { unsigned b; sscanf(vals[i] + 2 * j, "%2x", &b); ((unsigned char*)p)[j] = (unsigned char)b; } }
unsigned long sx_choice(unsigned long m, const char* name) { int i = find('C', name); return i < 0 ? 0 : strtoul(vals[i], 0, 10); }
void sx_assume(int c) { if (!c) { printf("ASSUMPTION-FALSE\n"); exit(0); } }
void sx_assert(int c, const char* m) { if (!c) { printf("ASSERT-FAILED: %s\n", m); fflush(stdout); _Exit(9); } }
void sx_fail(const char* m) { sx_assert(0, m); }
void sx_cover(const char* l) { }
int sx_is_symbolic(sx_u64 v) { return 0; }
int sx_depends_uninit(sx_u64 v) { return 0; }
int sx_initialised(const void* p, unsigned long sz) { return 1; }
int sx_feasible(int c) { return c; }
sx_u64 sx_concretize(sx_u64 v) { return v; }
unsigned long sx_subst64(sx_u64 a, sx_u64 b) { return 0; }
void sx_end(void) { exit(0); }
void sx_print(const char* s) { puts(s); }
void sx_printv(const char* s, sx_u64 v) { printf("%s%llu\n", s, v); }
static jmp_buf jb; static int in_catch, code;
static void on_exit_(int c) { }
void __real_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { if (in_catch) { code = c; longjmp(jb, 1); } fflush(stdout); __real_exit(c); }
int sx_call_catch_exit(void* fn, int argc, void* argv, int* exited) { in_catch = 1; int r; if (setjmp(jb) == 0) { r = ((int (*)(int, void*))fn)(argc, argv); *exited = 0; } else { r = code; *exited = 1; } in_catch = 0; return r; }
#undef main
int main(int ac, char** av) {
    FILE* f = fopen(av[1], "r"); static char line[1 << 20], a[4096];
    while (f && fgets(line, sizeof line, f)) { char k; int off; if (sscanf(line, "%c %4095s %n", &k, a, &off) < 2) continue; char* v = line + off; v[strcspn(v, "\n")] = 0; kinds[n] = k; names[n] = strdup(a); vals[n] = strdup(v); n++; }
    harness_entry(); printf("completed\n"); return 0;
}
