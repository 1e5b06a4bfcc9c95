#ifndef XC_H
#define XC_H
#include "x64i.h"
// compile `text` with umlcc's real main() on the in-memory file system; checks acceptance, then loads the emitted assembly
void xc_compile(const char* text, long n);
// run main() and require a rejection: exit status 1, a diagnostic on stderr and no output file
void xc_must_reject(const char* text, long n);
// umlcc must terminate normally either way; returns 1 when accepted
int xc_any(const char* text, long n);
// 1: accepted and loaded, 0: rejected with a diagnostic
int xc_try(const char* text, long n);
void xc_digits(char* p, int n, const char* name, int base, int first_nonzero);
u64 xc_value(const char* p, int n, int base);
// integer literals: the text holds a magic constant; when the parser is entered the constant is replaced by a symbolic value < bound
void xc_lit(u64 magic, u64* k, u64 bound, const char* name);
// snapshots of memory compared between the reference run and the compiled run
void xs_reset(void);
void xs_region(void* p, long n, const char* name);
void xs_save(void); void xs_swap(void); void xs_compare(void);
void xc_litpre(int (*f)(void));
#endif
