// C model of the libc surface used by umlcc, executed symbolically together with it.
// Files live in an in-memory file system; formatting a symbolic integer emits a placeholder "@k@"
// whose value is sxs_val[k], so that assembly text stays concrete while immediates stay symbolic.
#include "sx.h"
#include <stdarg.h>
#include <stddef.h>
typedef long long ll; typedef unsigned long long ull;
void* malloc(size_t); void* realloc(void*, size_t); void free(void*); void* memcpy(void*, const void*, size_t); size_t strlen(const char*); int strcmp(const char*, const char*); char* strcpy(char*, const char*);

size_t sxc_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int sxc_strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int sxc_memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = x, *b = y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int)a[i] - (int)b[i]; return 0; }
char* sxc_strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* sxc_strcat(char* d, const char* s) { sxc_strcpy(d + sxc_strlen(d), s); return d; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) break; } return 0; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strncat(char* d, const char* s, size_t n) { char* r = d; d += strlen(d); size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; d[i] = 0; return r; }
char* strchr(const char* s, int c) { while (1) { if (*s == (char)c) return (char*)s; if (!*s) return 0; s++; } }
char* strrchr(const char* s, int c) { const char* r = 0; while (1) { if (*s == (char)c) r = s; if (!*s) return (char*)r; s++; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); if (p) memcpy(p, s, n); return p; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int sxs_errno; int* __errno_location(void) { return &sxs_errno; }
// glibc's <ctype.h> may expand to table lookups
static unsigned short ctab[384]; static unsigned short* ctabp; static int ctinit;
const unsigned short** __ctype_b_loc(void) {
    if (!ctinit) { ctinit = 1; for (int c = 0; c < 256; c++) { unsigned short b = 0; if (isupper(c)) b |= 256; if (islower(c)) b |= 512; if (isalpha(c)) b |= 1024; if (isdigit(c)) b |= 2048; if (isxdigit(c)) b |= 4096; if (isspace(c)) b |= 8192; if (isprint(c)) b |= 16384; if (isgraph(c)) b |= 32768; if (c == ' ' || c == 9) b |= 1; if (iscntrl(c)) b |= 2; if (ispunct(c)) b |= 4; if (isalnum(c)) b |= 8; ctab[128 + c] = b; } ctabp = ctab + 128; }
    return (const unsigned short**)&ctabp;
}
static int dig(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static ull parse(const char* s, char** end, int base, int* neg, int* ovf) {
    const char* s0 = s; *neg = 0; *ovf = 0; while (isspace(*s)) s++;
    if (*s == '-') { *neg = 1; s++; } else if (*s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2]) < 16) { s += 2; base = 16; } else if (base == 0) base = s[0] == '0' ? 8 : 10;
    ull v = 0; int n = 0;
    // while fewer digits have been read than can overflow, no overflow test (keeps symbolic digits fork-free)
    int safe = base == 10 ? 19 : base == 8 ? 21 : base == 16 ? 16 : 12;
    while (1) { int d = dig(*s); if (d >= base) break; n++; if (n > safe && v > (~0ull - (ull)d) / (ull)base) *ovf = 1; v = v * (ull)base + (ull)d; s++; }
    if (end) *end = (char*)(n ? s : s0); return v;
}
ull strtoull(const char* s, char** e, int b) { int n, o; ull v = parse(s, e, b, &n, &o); if (o) { sxs_errno = 34; return ~0ull; } return n ? 0 - v : v; }
ll strtoll(const char* s, char** e, int b) { int n, o; ull v = parse(s, e, b, &n, &o); if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) { sxs_errno = 34; return n ? (ll)0x8000000000000000ull : 0x7fffffffffffffffll; } return n ? (ll)(0 - v) : (ll)v; }
long strtol(const char* s, char** e, int b) { return (long)strtoll(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, 0, 10); }
ll atoll(const char* s) { return strtoll(s, 0, 10); }

// ---- formatting
#define SXS_MAX 4096
ull sxs_val[SXS_MAX]; int sxs_n;
int sxs_digits = 0; // 1: print symbolic decimals exactly (forking) instead of placeholders
typedef struct { char* p; size_t n, cap; int grow; } sink;
static void put(sink* k, char c) { if (k->grow && k->n + 1 >= k->cap) { k->cap = k->cap * 2 + 64; k->p = realloc(k->p, k->cap); } if (k->n < k->cap || !k->cap) k->p[k->n] = c; k->n++; }
static void puts_(sink* k, const char* s, int prec) { for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) put(k, s[i]); }
static void num(sink* k, ull v, int base, int neg, int width, int zero, int up, int left, int alt) {
    char b[72]; int n = 0;
    do { unsigned d = (unsigned)(v % (ull)base); b[n++] = base <= 10 ? (char)('0' + d) : (d < 10 ? (char)('0' + d) : (char)((up ? 'A' : 'a') + d - 10)); v /= (ull)base; } while (v);
    if (alt && base == 16) { b[n++] = up ? 'X' : 'x'; b[n++] = '0'; }
    int tot = n + neg; if (!zero && !left) while (tot < width) { put(k, ' '); tot++; }
    if (neg) put(k, '-'); if (zero && !left) while (tot < width) { put(k, '0'); tot++; }
    while (n) put(k, b[--n]); if (left) while (tot < width) { put(k, ' '); tot++; }
}
static void fmt(sink* k, const char* f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { put(k, *f); continue; }
        f++; int zero = 0, left = 0, width = 0, prec = -1, l = 0, alt = 0, plus = 0;
        for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#') alt = 1; else if (*f == '+') plus = 1; else if (*f == ' ') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (1) { if (*f == 'l') { l++; f++; } else if (*f == 'h') { l--; f++; } else if (*f == 'z' || *f == 'j' || *f == 't') { l = 2; f++; } else break; }
        switch (*f) {
            case '%': put(k, '%'); break;
            case 'c': put(k, (char)va_arg(ap, int)); break;
            case 's': { const char* s = va_arg(ap, const char*); int n = 0; if (width) { while ((prec < 0 || n < prec) && s[n]) n++; } if (!left) for (int i = n; i < width; i++) put(k, ' '); puts_(k, s, prec); if (left) for (int i = n; i < width; i++) put(k, ' '); break; }
            case 'p': { ull v = (ull)va_arg(ap, void*); puts_(k, "0x", -1); num(k, v, 16, 0, 0, 0, 0, 0, 0); break; }
            case 'd': case 'i': case 'u': case 'o': case 'x': case 'X': {
                ull v = l >= 1 ? (ull)va_arg(ap, ll) : (ull)va_arg(ap, int); int sg = *f == 'd' || *f == 'i';
                if (l == 0) v = sg ? (ull)(ll)(int)v : (ull)(unsigned)v; else if (l == -1) v = sg ? (ull)(ll)(short)v : (ull)(unsigned short)v; else if (l <= -2) v = sg ? (ull)(ll)(signed char)v : (ull)(unsigned char)v;
                if ((sg || *f == 'u') && !sxs_digits && sx_is_symbolic(v)) { int id = -1; for (int i = 0; i < sxs_n; i++) if (0) id = i; id = sxs_n++; sxs_val[id] = v; put(k, '@'); num(k, (ull)id, 10, 0, 0, 0, 0, 0, 0); put(k, '@'); break; }
                if ((*f == 'o' || *f == 'x' || *f == 'X') && sx_is_symbolic(v)) {
                    int sh = *f == 'o' ? 3 : 4, n = 1; while (n * sh < 64 && (v >> (n * sh)) != 0) n++;
                    int w = prec > n ? prec : (zero && !left && width > n ? width : n);
                    if (!zero && !left) for (int i = w; i < width; i++) put(k, ' ');
                    for (int i = w; i-- > 0;) { unsigned d = i * sh >= 64 ? 0 : (unsigned)(v >> (i * sh)) & ((1u << sh) - 1); put(k, sh == 3 ? (char)('0' + d) : (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10)); }
                    break;
                }
                int neg = sg && (ll)v < 0; if (neg) v = 0 - v; if (plus && sg && !neg) put(k, '+');
                if (prec > width) { width = prec + neg; zero = 1; }
                num(k, v, *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10, neg, width, zero, *f == 'X', left, alt); break; }
            default: sx_fail("format specifier not modelled");
        }
    }
}
int vsprintf(char* d, const char* f, va_list ap) { sink k = { d, 0, 0, 0 }; fmt(&k, f, ap); d[k.n] = 0; return (int)k.n; }
int sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsprintf(d, f, ap); va_end(ap); return n; }
int vsnprintf(char* d, size_t m, const char* f, va_list ap) { sink k = { 0, 0, 0, 1 }; fmt(&k, f, ap); put(&k, 0); if (m) { size_t c = k.n - 1 < m - 1 ? k.n - 1 : m - 1; memcpy(d, k.p, c); d[c] = 0; } int n = (int)k.n - 1; free(k.p); return n; }
int snprintf(char* d, size_t m, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(d, m, f, ap); va_end(ap); return n; }

// ---- in-memory files
typedef struct { char name[128]; char* data; long size, cap; int exists; } vnode;
typedef struct { vnode* v; long pos; int wr, eof, err; } vfile;
vnode sxs_fs[8]; int sxs_nfs; static vfile err_f, out_f; static vnode err_n, out_n;
vfile* stderr = &err_f; vfile* stdout = &out_f;
int sxs_open_handles; int sxs_open_writes;
vnode* sxs_find(const char* n) { for (int i = 0; i < sxs_nfs; i++) if (sxs_fs[i].exists && !strcmp(sxs_fs[i].name, n)) return &sxs_fs[i]; return 0; }
vnode* sxs_create(const char* n) { vnode* v = sxs_find(n); if (!v) { v = &sxs_fs[sxs_nfs++]; strcpy(v->name, n); v->exists = 1; } v->size = 0; return v; }
void sxs_set(const char* n, const char* d, long sz) { vnode* v = sxs_create(n); v->data = malloc((size_t)sz + 1); memcpy(v->data, d, (size_t)sz); v->size = sz; v->cap = sz + 1; }
// fault schedule (set by a harness): operation sxs_fault fails at its sxs_fault_at-th use; 1 fopen, 2 fseek, 3 ftell, 4 fread, 5 write, 6 fclose of an output file
int sxs_fault, sxs_fault_hit; unsigned sxs_fault_at, sxs_fault_len; static unsigned sxs_fault_n; void sxs_fault_reset(void) { sxs_fault = sxs_fault_hit = 0; sxs_fault_n = 0; }
static int flt(int op) { if (sxs_fault != op) return 0; if (sxs_fault_n++ != sxs_fault_at) return 0; sxs_fault_hit = 1; return 1; }
vfile* fopen(const char* n, const char* m) {
    if (flt(1)) return 0;
    vnode* v = sxs_find(n); int wr = m[0] == 'w' || m[0] == 'a';
    if (!v && !wr) return 0; if (m[0] == 'w') { v = sxs_create(n); v->size = 0; sxs_open_writes++; } else if (!v) v = sxs_create(n);
    vfile* f = malloc(sizeof *f); f->v = v; f->pos = m[0] == 'a' ? v->size : 0; f->wr = wr; f->eof = f->err = 0; sxs_open_handles++; return f;
}
int fclose(vfile* f) { int r = f->wr && flt(6) ? -1 : 0; sxs_open_handles--; free(f); return r; }
int fseek(vfile* f, long o, int w) { if (flt(2)) return -1; f->pos = w == 0 ? o : w == 1 ? f->pos + o : f->v->size + o; f->eof = 0; return 0; }
long ftell(vfile* f) { if (flt(3)) return -1; return f->pos; }
void rewind(vfile* f) { f->pos = 0; f->eof = 0; }
size_t fread(void* p, size_t s, size_t n, vfile* f) { size_t a = (size_t)(f->v->size - f->pos), w = s * n; if (flt(4)) { f->err = 1; if (a > sxs_fault_len) a = sxs_fault_len; } if (w > a) { w = s ? a / s * s : 0; f->eof = 1; } if (w) memcpy(p, f->v->data + f->pos, w); f->pos += (long)w; return s ? w / s : 0; }
int fgetc(vfile* f) { if (f->pos >= f->v->size) { f->eof = 1; return -1; } return (unsigned char)f->v->data[f->pos++]; }
int getc(vfile* f) { return fgetc(f); }
int ungetc(int c, vfile* f) { if (c >= 0 && f->pos > 0) f->pos--; return c; }
int feof(vfile* f) { return f->eof; }
int ferror(vfile* f) { return f->err; }
static void vput(vfile* f, const char* p, size_t n) { vnode* v = f->v; if (v && v != &err_n && v != &out_n && flt(5)) { f->err = 1; return; } if (!v) { v = f == &err_f ? &err_n : &out_n; f->v = v; } if (v->cap < f->pos + (long)n + 1) { v->cap = (f->pos + (long)n) * 2 + 64; v->data = realloc(v->data, (size_t)v->cap); } if (n) memcpy(v->data + f->pos, p, n); f->pos += (long)n; if (f->pos > v->size) v->size = f->pos; }
long sxs_stderr_size(void) { return err_n.size; }
const char* sxs_stderr_data(void) { return err_n.data; }
size_t fwrite(const void* p, size_t s, size_t n, vfile* f) { int e = f->err; f->err = 0; vput(f, p, s * n); int b = f->err; f->err |= e; return b ? 0 : n; }
int fputs(const char* s, vfile* f) { return fwrite(s, 1, strlen(s), f) || !*s ? 1 : -1; }
int fputc(int c, vfile* f) { char b = (char)c; return fwrite(&b, 1, 1, f) ? c : -1; }
int putc(int c, vfile* f) { return fputc(c, f); }
int vfprintf(vfile* f, const char* s, va_list ap) { if (s[0] == '%' && s[1] == 's' && !s[2]) { const char* t = va_arg(ap, const char*); size_t n = strlen(t); return fwrite(t, 1, n, f) || !n ? (int)n : -1; } sink k = { 0, 0, 0, 1 }; fmt(&k, s, ap); put(&k, 0); int n = (int)k.n - 1; if (n && !fwrite(k.p, 1, k.n - 1, f)) n = -1; free(k.p); return n; }
int fprintf(vfile* f, const char* s, ...) { va_list ap; va_start(ap, s); int n = vfprintf(f, s, ap); va_end(ap); return n; }
int printf(const char* s, ...) { va_list ap; va_start(ap, s); int n = vfprintf(stdout, s, ap); va_end(ap); return n; }
int puts(const char* s) { fputs(s, stdout); return fputc('\n', stdout); }
int putchar(int c) { return fputc(c, stdout); }
int fflush(vfile* f) { return f && f->err ? -1 : 0; }
void perror(const char* s) { fputs(s ? s : "", stderr); fputs("\n", stderr); }
int remove(const char* n) { vnode* v = sxs_find(n); if (!v) return -1; v->exists = 0; return 0; }
char* strerror(int e) { return "error"; }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) { sx_fail("assert() failed"); }
void qsort(void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { char* a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(a + (j - 1) * s, a + j * s) > 0; j--) for (size_t k = 0; k < s; k++) { char t = a[(j - 1) * s + k]; a[(j - 1) * s + k] = a[j * s + k]; a[j * s + k] = t; } }
void* bsearch(const void* k, const void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { size_t l = 0, h = n; while (l < h) { size_t m = l + (h - l) / 2; const char* p = (const char*)b + m * s; int r = c(k, p); if (!r) return (void*)p; if (r < 0) h = m; else l = m + 1; } return 0; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strndup(const char* s, size_t n) { size_t l = strnlen(s, n); char* p = malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char* strtok_r(char* s, const char* d, char** q) { if (!s) s = *q; s += strspn(s, d); if (!*s) { *q = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *q = e; return s; }
static char* sxs_tok; char* strtok(char* s, const char* d) { return strtok_r(s, d, &sxs_tok); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
int isblank(int c) { return c == ' ' || c == 9; }
int isascii(int c) { return (c & ~127) == 0; }
long atol(const char* s) { return strtoll(s, 0, 10); }
ll llabs(ll x) { return x < 0 ? -x : x; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y || !x) return x - y; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int asprintf(char** d, const char* f, ...) { va_list ap, aq; va_start(ap, f); va_copy(aq, ap); int n = vsnprintf(0, 0, f, aq); va_end(aq); *d = malloc((size_t)n + 1); vsprintf(*d, f, ap); va_end(ap); return n; }
char* fgets(char* d, int n, vfile* f) { int i = 0; while (i + 1 < n) { int c = fgetc(f); if (c < 0) break; d[i++] = (char)c; if (c == 10) break; } if (!i) return 0; d[i] = 0; return d; }
int getchar(void) { return -1; }
int fileno(vfile* f) { return f == stderr ? 2 : f == stdout ? 1 : 3; }
int unlink(const char* n) { return remove(n); }
int rename(const char* a, const char* b) { vnode* v = sxs_find(a); if (!v) return -1; if (!strcmp(a, b)) return 0; remove(b); strcpy(v->name, b); return 0; }
int atexit(void (*f)(void)) { return 0; }
void clearerr(vfile* f) { f->eof = f->err = 0; }
int setvbuf(vfile* f, char* b, int m, size_t n) { return 0; }
const int** __ctype_tolower_loc(void) { static int t[384]; static const int* p; if (!p) { for (int i = 0; i < 384; i++) t[i] = i < 128 ? i - 128 : tolower(i - 128); p = t + 128; } return &p; }
const int** __ctype_toupper_loc(void) { static int t[384]; static const int* p; if (!p) { for (int i = 0; i < 384; i++) t[i] = i < 128 ? i - 128 : toupper(i - 128); p = t + 128; } return &p; }
