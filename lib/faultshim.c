// LD_PRELOAD shim for native replays: makes the SX_AT-th use of one file operation fail (numbers as in stubs.c).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
static int op = -1; static unsigned at, len, cnt; static FILE* outs[64]; static int no;
static int flt(int k) { if (op < 0) { op = atoi(getenv("SX_FAULT") ?: "0"); at = strtoul(getenv("SX_AT") ?: "0", 0, 10); len = strtoul(getenv("SX_LEN") ?: "0", 0, 10); } if (op != k) return 0; return cnt++ == at; }
#define REAL(t, n, ...) ((t (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #n))
static int isout(FILE* f) { for (int i = 0; i < no; i++) if (outs[i] == f) return 1; return 0; }
FILE* fopen(const char* n, const char* m) { if (flt(1)) return 0; FILE* f = REAL(FILE*, fopen, const char*, const char*)(n, m); if (f && m[0] != 'r' && no < 64) outs[no++] = f; return f; }
int fseek(FILE* f, long o, int w) { if (flt(2)) return -1; return REAL(int, fseek, FILE*, long, int)(f, o, w); }
long ftell(FILE* f) { if (flt(3)) return -1; return REAL(long, ftell, FILE*)(f); }
size_t fread(void* p, size_t s, size_t n, FILE* f) { if (flt(4)) { f->_flags |= 0x20; if (s * n > len) n = s ? len / s : 0; } return REAL(size_t, fread, void*, size_t, size_t, FILE*)(p, s, n, f); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { if (isout(f) && flt(5)) { f->_flags |= 0x20; return 0; } return REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)(p, s, n, f); }
int fputs(const char* s, FILE* f) { return fwrite(s, 1, strlen(s), f) || !*s ? 1 : -1; }
int fputc(int c, FILE* f) { char b = c; return fwrite(&b, 1, 1, f) ? c : -1; }
int vfprintf(FILE* f, const char* s, va_list ap) { char* t; int n = vasprintf(&t, s, ap); if (n > 0 && !fwrite(t, 1, n, f)) n = -1; free(t); return n; }
int fprintf(FILE* f, const char* s, ...) { va_list ap; va_start(ap, s); int n = vfprintf(f, s, ap); va_end(ap); return n; }
int fclose(FILE* f) { int o = isout(f); if (o) for (int i = 0; i < no; i++) if (outs[i] == f) outs[i] = 0; int x = o && flt(6); if (x) __fpurge(f); int r = REAL(int, fclose, FILE*)(f); return x ? -1 : r; }
