#ifndef SX_H
#define SX_H
// Verification API: intrinsic to the symbolic executor; sxnative.c implements it for native replay.
typedef unsigned long long sx_u64;
void sx_make_symbolic(void* p, unsigned long n, const char* name);
void sx_assume(int cond);
void sx_assert(int cond, const char* msg);
unsigned long sx_choice(unsigned long n, const char* name);
void sx_cover(const char* label);
int sx_is_symbolic(sx_u64 v);
int sx_depends_uninit(sx_u64 v);
int sx_initialised(const void* p, unsigned long n);
int sx_feasible(int cond);
int sx_call_catch_exit(void* fn, int argc, void* argv, int* exited);
sx_u64 sx_concretize(sx_u64 v);
unsigned long sx_subst64(sx_u64 magic, sx_u64 value);
void sx_end(void);
void sx_fail(const char* msg);
void sx_print(const char* s);
void sx_printv(const char* s, sx_u64 v);
// harness bounds: settable by the driver (--set name=value; SX_SET_name in a native replay)
#ifdef SX_NATIVE
#include <stdlib.h>
#define SX_BOUND(n, d) int n = d; __attribute__((constructor)) static void sx_b_##n(void) { char* e = getenv("SX_SET_" #n); if (e) n = atoi(e); }
#define main umlcc_main
#else
#define SX_BOUND(n, d) int n = d;
#endif
static inline int sx_int(const char* name) { int v; sx_make_symbolic(&v, sizeof v, name); return v; }
static inline sx_u64 sx_u64v(const char* name) { sx_u64 v; sx_make_symbolic(&v, sizeof v, name); return v; }
#endif
