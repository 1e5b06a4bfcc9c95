#include "xc.h"
#include <stddef.h>
int main(int, char**);
void* malloc(size_t); void* realloc(void*, size_t); void* memcpy(void*, const void*, size_t); int sprintf(char*, const char*, ...); char* strcpy(char*, const char*); size_t strlen(const char*);
typedef struct { char name[128]; char* data; long size, cap; int exists; } vnode;
vnode* sxs_find(const char*); void sxs_set(const char*, const char*, long); long sxs_stderr_size(void); extern int sxs_n;
static char xmsg[300];
static int run(const char* text, long n, int* ex) { sxs_set("a.c", text, n); char a0[8] = "umlcc", a1[8] = "a.c"; char* av[3] = { a0, a1, 0 }; return sx_call_catch_exit((void*)main, 2, av, ex); }
int xc_any(const char* text, long n) {
    int ex; int r = run(text, n, &ex); vnode* v = sxs_find("a.s");
    if (r == 0) { sx_assert(v != 0, "umlcc exits 0 but writes no output file"); return 1; }
    sx_assert(r == 1, "exit status is neither 0 nor 1"); sx_assert(v == 0, "umlcc fails but leaves an output file"); sx_assert(sxs_stderr_size() > 0, "umlcc fails without a diagnostic"); return 0;
}
void xc_compile(const char* text, long n) {
    xi_reset(); int ex; int r = run(text, n, &ex);
    if (r != 0) { sx_fail("umlcc rejects a valid program"); }
    vnode* v = sxs_find("a.s"); if (!v) sx_fail("umlcc writes no output file");
    char* t = malloc(v->size + 1); memcpy(t, v->data, v->size); t[v->size] = 0; xi_load(t, v->size); sx_cover("compiled");
}
int xc_try(const char* text, long n) {
    xi_reset(); if (!xc_any(text, n)) { sx_cover("rejected"); return 0; }
    vnode* v = sxs_find("a.s"); char* t = malloc(v->size + 1); memcpy(t, v->data, v->size); t[v->size] = 0; xi_load(t, v->size); sx_cover("compiled"); return 1;
}
void xc_must_reject(const char* text, long n) {
    int ex; int r = run(text, n, &ex); sx_assert(r != 0, "umlcc accepts an invalid program"); sx_assert(r == 1, "exit status is not 1"); sx_assert(sxs_find("a.s") == 0, "an output file is left behind"); sx_assert(sxs_stderr_size() > 0, "no diagnostic printed"); sx_cover("rejected");
}
void xc_digits(char* p, int n, const char* name, int base, int nz) {
    char t[32]; for (int i = 0; i < n; i++) { sprintf(t, "%s.%d", name, i); u8 d; sx_make_symbolic(&d, 1, t); sx_assume(d < base); if (i == 0 && nz) sx_assume(d != 0); p[i] = (char)(base > 10 ? (d < 10 ? '0' + d : 'a' + d - 10) : '0' + d); }
}
u64 xc_value(const char* p, int n, int base) { u64 v = 0; for (int i = 0; i < n; i++) { u64 d = p[i] <= '9' ? p[i] - '0' : p[i] - 'a' + 10; v = v * base + d; } return v; }
static struct { u64 magic, bound; u64* k; const char* name; } XL[16]; static int nXL; static int (*XP)(void);
void xc_litpre(int (*f)(void)) { XP = f; }
void xc_lit(u64 magic, u64* k, u64 bound, const char* name) { *k = magic; XL[nXL].magic = magic; XL[nXL].k = k; XL[nXL].bound = bound; XL[nXL].name = name; nXL++; }
void sx_on_call__parser_create_ast(void) {
    for (int i = 0; i < nXL; i++) { u64 v; sx_make_symbolic(&v, 8, XL[i].name); u64 mask = 1; while (mask < XL[i].bound - 1) mask = mask * 2 + 1; v &= mask; if (mask != XL[i].bound - 1) sx_assume(v < XL[i].bound); if (sx_subst64(XL[i].magic, v)) { *XL[i].k = v; sx_cover("literal made symbolic"); } else sx_assume(v == XL[i].magic); }
    nXL = 0; if (XP) { sx_assume(XP()); XP = 0; }
}
static struct { char* p; long n; const char* name; char *init, *ref; } S[256]; static int nS;
void xs_reset(void) { nS = 0; }
void xs_region(void* p, long n, const char* name) { S[nS].p = p; S[nS].n = n; S[nS].name = name; S[nS].init = S[nS].ref = 0; nS++; }
void xs_save(void) { for (int i = 0; i < nS; i++) { S[i].init = malloc(S[i].n + 1); memcpy(S[i].init, S[i].p, S[i].n); } }
void xs_swap(void) { for (int i = 0; i < nS; i++) { S[i].ref = malloc(S[i].n + 1); memcpy(S[i].ref, S[i].p, S[i].n); memcpy(S[i].p, S[i].init, S[i].n); } }
void xs_compare(void) { for (int i = 0; i < nS; i++) { long k = 0; u64 d = 0; for (; k + 8 <= S[i].n; k += 8) d |= *(u64*)(S[i].p + k) ^ *(u64*)(S[i].ref + k); for (; k < S[i].n; k++) d |= (u64)(u8)(S[i].p[k] ^ S[i].ref[k]); sprintf(xmsg, "memory of %s differs after the call", S[i].name); sx_assert(d == 0, xmsg); } }
