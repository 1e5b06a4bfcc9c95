// The command line: exit status, output file, diagnostics under every fault of the file operations; symbolic file names.
#include "sx.h"
int main(int, char**);
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
SX_BOUND(TEXT, 0)
SX_BOUND(NLEN, 4)
typedef struct { char name[128]; char* data; long size, cap; int exists; } vnode;
vnode* sxs_find(const char*); void sxs_set(const char*, const char*, long); long sxs_stderr_size(void);
extern int sxs_fault, sxs_fault_hit, sxs_nfs; extern unsigned sxs_fault_at, sxs_fault_len; void sxs_fault_reset(void);
static const char* texts[] = { "int g = 3;\nint f(int a) { return a + g; }\n", "int f(void) { return 1 @ 2; }", "int f(void) { return 1 + ; }", "int f(void) { return x; }",
    "char* f(void) { return \"abc\"; } int h(int a) { return a ? h(a - 1) : 7; }", "int v[2] = { 1, 2 }; void f(void) { }" };
static const int good[] = { 1, 0, 0, 0, 1, 1 };
static int call(int argc, char* a1, char* a2) { char a0[8] = "umlcc"; char* av[4] = { a0, a1, a2, 0 }; if (argc < 3) av[2] = 0; if (argc < 2) av[1] = 0; int ex; return sx_call_catch_exit((void*)main, argc, av, &ex); }
static int same(const char* n, const char* d, long z) { vnode* v = sxs_find(n); return v && v->size == z && !memcmp(v->data, d, (size_t)z); }
static void others(void) { sxs_set("other.c", "x", 1); sxs_set("other.s", "y", 1); sxs_set("a", "z", 1); }
static void check_others(void) { sx_assert(same("other.c", "x", 1) && same("other.s", "y", 1) && same("a", "z", 1), "a file that has nothing to do with the input is changed"); }
// one failing operation at an arbitrary point
void h_fault(void) {
    const char* t = texts[TEXT]; long n = (long)strlen(t); char in[8] = "q.c"; char ref[8] = "r.c";
    others(); sxs_set("r.c", t, n); int r = call(2, ref, 0); sx_assert(r == !good[TEXT], "exit status without a fault"); long e0 = sxs_stderr_size();
    vnode* rs = sxs_find("r.s"); sx_assert((rs != 0) == good[TEXT], "output file without a fault");
    sxs_set("q.c", t, n); int stale = (int)sx_choice(2, "stale"); if (stale) sxs_set("q.s", "old old old\n", 12); // what an earlier run left behind
    sxs_fault_reset(); unsigned at; sx_make_symbolic(&at, sizeof at, "at"); unsigned len; sx_make_symbolic(&len, sizeof len, "len");
    sxs_fault_len = len; sxs_fault_at = at; sxs_fault = (int)sx_choice(7, "fault"); if (sxs_fault == 4) sx_assume(len < n);
    r = call(2, in, 0); int hit = sxs_fault_hit; sxs_fault_reset(); vnode* v = sxs_find("q.s");
    check_others(); sx_assert(same("q.c", t, n), "the input file is changed");
    if (r == 0) { sx_assert(!hit, "exit status 0 although a file operation failed"); sx_assert(good[TEXT] && v && same("q.s", rs->data, rs->size), "exit status 0 without the complete output"); sx_cover("success"); }
    else { sx_assert(r == 1, "exit status is neither 0 nor 1"); sx_assert(!v || stale && same("q.s", "old old old\n", 12), "failure leaves an output file"); sx_assert(sxs_stderr_size() > e0, "failure without a diagnostic"); sx_assert(hit || !good[TEXT], "a valid program is refused"); sx_cover("failure"); }
    sx_cover("done");
}
// arbitrary file names
void h_name(void) {
    char a[16]; for (int i = 0; i < NLEN; i++) { char c; sx_make_symbolic(&c, 1, "c"); sx_assume((c == 'a') | (c == '.') | (c == 'c') | (c == 's') | (c == '/')); a[i] = (char)sx_concretize((unsigned char)c); } a[NLEN] = 0;
    if (a[0] == '/' || a[NLEN - 1] == '/' || strstr(a, "//") || strstr(a, "./") || !strcmp(a, ".") || !strcmp(a, "..")) return; // directories and absolute paths
    const char* t = texts[0]; long n = (long)strlen(t); int exists = (int)sx_choice(2, "exists"); int ok = NLEN > 1 && a[NLEN - 1] == 'c' && a[NLEN - 2] == '.';
    if (exists) sxs_set(a, t, n); int nf = sxs_nfs; char b[16]; strcpy(b, a); int r = call(2, a, 0);
    strcpy(a, b); a[NLEN - 1] = 's';
    if (exists && ok) { sx_assert(r == 0 && sxs_find(a) && sxs_nfs == nf + 1 && same(b, t, n), "the output of x.c goes to x.s"); sx_cover("accepted"); }
    else { sx_assert(r == 1 && sxs_stderr_size() > 0 && sxs_nfs == nf, "a missing file or another kind of file is refused"); sx_cover("refused"); }
    sx_cover("done");
}
void h_argc(void) {
    char a[8] = "q.c", b[8] = "r.c"; const char* t = texts[0]; sxs_set("q.c", t, (long)strlen(t)); sxs_set("r.c", t, (long)strlen(t)); int argc = (int)sx_choice(3, "argc") + 1;
    int r = call(argc, a, b); sx_assert(r == (argc != 2), "exactly one argument is accepted"); sx_assert((sxs_find("q.s") != 0) == (argc == 2), "output for exactly one argument"); sx_assert(!sxs_find("r.s"), "no other output"); if (r) sx_assert(sxs_stderr_size() > 0, "diagnostic"); sx_cover("done");
}
