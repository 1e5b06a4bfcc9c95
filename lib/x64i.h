#ifndef X64I_H
#define X64I_H
#include "sx.h"
typedef unsigned long long u64; typedef long long i64; typedef unsigned int u32; typedef int i32; typedef unsigned short u16; typedef short i16; typedef unsigned char u8; typedef signed char i8;
// AT&T x86-64 text interpreter over the executor's own address space.
void xi_reset(void);
void xi_load(const char* text, long n);
void xi_bind(const char* name, void* addr, long size, int flags); // flags bit0: object may hold pointers to string data
void xi_ext(const char* name, int id, const char* sig);
void xi_link(int check_init);
u64 xi_call(const char* fn, const char* sig, const u64* args);
// call traces shared by the reference run (mode 0) and the compiled run (mode 1)
void xt_begin(int mode);
u64 xt_call(int id, int n, const u64* v);
void xt_end(void);
u64 xt_canon(u64 v, char t);
extern int xi_steps_run;
#endif
