#include "x64i.h"
#include <stddef.h>
void* malloc(size_t); void* realloc(void*, size_t); void free(void*); void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); size_t strlen(const char*); int strcmp(const char*, const char*); int strncmp(const char*, const char*, size_t); int sprintf(char*, const char*, ...); int memcmp(const void*, const void*, size_t);
extern u64 sxs_val[]; extern int sxs_n;
enum { RAX, RBX, RCX, RDX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15, RIP = 16, NOREG = 31 };
static const char* rq[] = { "rax", "rbx", "rcx", "rdx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15" };
static const char* rl[] = { "eax", "ebx", "ecx", "edx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d" };
static const char* rw[] = { "ax", "bx", "cx", "dx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w" };
static const char* rb[] = { "al", "bl", "cl", "dl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b" };
enum { T_NONE, T_REG, T_IMM, T_MEM, T_LAB, T_STARREG, T_STARMEM };
typedef struct { u8 t, reg, size, base, index, scale; int lab; i64 disp; u64 imm; } op;
enum { I_MOV, I_MOVABS, I_MOVS, I_MOVZ, I_LEA, I_PUSH, I_POP, I_ADD, I_SUB, I_IMUL, I_MUL, I_DIV, I_IDIV, I_NEG, I_NOT, I_AND, I_OR, I_XOR, I_SAL, I_SAR, I_SHR, I_CMP, I_TEST, I_INC, I_DEC, I_SET, I_J, I_JMP, I_CALL, I_RET, I_LEAVE, I_CBTW, I_CWTL, I_CLTQ, I_CWTD, I_CLTD, I_CQTO, I_NOP, I_CMOV, I_XCHG };
typedef struct { u8 op, w, w2, cc, n; int line; op o[3]; } insn;
typedef struct { const char* name; int len; int text; int insn; int defined; u64 addr; int doff, dsize; int ext; const char* sig; int extid; int bound; long bsize; int flags; } label;
typedef struct { int off, lab; i64 add; } reloc;
static insn* I; static int nI, cI; static label* L; static int nL, cL; static u8* D; static int nD, cD; static reloc* R; static int nR, cR;
static char fnaddr[512]; static char retaddr[16384]; static char msg[400]; static const char* cur; static int curlen, lineno; static int sec_text, curlab;
int xi_steps_run;
static void bad(const char* why) { char t[160]; int n = curlen < 150 ? curlen : 150; memcpy(t, cur, n); t[n] = 0; sprintf(msg, "assembler rejects output line %d: %s [%s]", lineno, why, t); sx_fail(msg); sx_end(); }
void xi_reset(void) { nI = nL = nD = nR = 0; curlab = -1; sec_text = 1; xi_steps_run = 0; lineno = 0; }
static int findlab(const char* s, int n) {
    for (int i = 0; i < nL; i++) if (L[i].len == n && !strncmp(L[i].name, s, n)) return i;
    if (nL == cL) { cL = cL * 2 + 32; L = realloc(L, cL * sizeof *L); }
    char* nm = malloc(n + 1); memcpy(nm, s, n); nm[n] = 0;
    label* l = &L[nL]; memset(l, 0, sizeof *l); l->name = nm; l->len = n; l->insn = -1; l->extid = -1; return nL++;
}
static int idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '$'; }
// number: [-]digits | [-]@k@ ; returns chars consumed (0: not a number)
static int number(const char* s, u64* out) {
    int i = 0, neg = 0; u64 v = 0; if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
    if (s[i] == '@') { int k = 0; i++; while (s[i] >= '0' && s[i] <= '9') k = k * 10 + (s[i++] - '0'); if (s[i] != '@') return 0; i++; v = sxs_val[k]; }
    else if (s[i] >= '0' && s[i] <= '9') {
        int base = 10; if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; } else if (s[i] == '0') base = 8;
        int any = 0, dn = 0;
        while (1) { char c = s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) break; dn++; if (dn > 16 && v > (~0ull - d) / base) bad("integer out of range"); v = v * base + d; any = 1; i++; }
        if (!any) return 0;
    } else return 0;
    *out = neg ? 0 - v : v; return i;
}
static int regn(const char* s, int n, u8* size) {
    for (int i = 0; i < 16; i++) {
        if ((int)strlen(rq[i]) == n && !strncmp(rq[i], s, n)) { *size = 8; return i; } if ((int)strlen(rl[i]) == n && !strncmp(rl[i], s, n)) { *size = 4; return i; }
        if ((int)strlen(rw[i]) == n && !strncmp(rw[i], s, n)) { *size = 2; return i; } if ((int)strlen(rb[i]) == n && !strncmp(rb[i], s, n)) { *size = 1; return i; }
    }
    if (n == 3 && !strncmp(s, "rip", 3)) { *size = 8; return RIP; }
    return -1;
}
static const char* reg(const char* s, u8* r, u8* size) { if (*s != '%') bad("register expected"); s++; int n = 0; while (idc(s[n])) n++; int k = regn(s, n, size); if (k < 0) bad("bad register name"); *r = (u8)k; return s + n; }
static const char* ws(const char* s) { while (*s == ' ' || *s == '\t') s++; return s; }
static const char* operand(const char* s, op* o) {
    memset(o, 0, sizeof *o); o->base = o->index = NOREG; o->lab = -1; s = ws(s); int star = 0;
    if (*s == '*') { star = 1; s++; }
    if (*s == '%') { s = reg(s, &o->reg, &o->size); o->t = star ? T_STARREG : T_REG; return s; }
    if (*s == '$') { s++; u64 v; int n = number(s, &v); if (n) { o->t = T_IMM; o->imm = v; return s + n; } int k = 0; while (idc(s[k])) k++; if (!k) bad("bad immediate"); o->t = T_IMM; o->lab = findlab(s, k); return s + k; }
    u64 d; int n = number(s, &d); int havelab = 0;
    if (n) { s += n; o->disp = (i64)d; }
    else if (idc(*s)) { int k = 0; while (idc(s[k])) k++; o->lab = findlab(s, k); s += k; havelab = 1; n = number(s, &d); if (n) { s += n; o->disp = (i64)d; } }
    if (*s == '(') {
        s = ws(s + 1); u8 sz; if (*s == '%') { s = reg(s, &o->base, &sz); if (sz != 8) bad("address register must be 64-bit"); } s = ws(s); o->scale = 1;
        if (*s == ',') { s = ws(s + 1); s = reg(s, &o->index, &sz); if (sz != 8 || o->index == RSP) bad("bad index register"); s = ws(s); if (*s == ',') { s = ws(s + 1); n = number(s, &d); if (!n || !(d == 1 || d == 2 || d == 4 || d == 8)) bad("bad scale"); o->scale = (u8)d; s += n; s = ws(s); } }
        if (*s != ')') bad("missing )"); s++; o->t = star ? T_STARMEM : T_MEM;
        if (!(o->disp >= -2147483648ll && o->disp <= 2147483647ll)) bad("displacement out of range");
    } else if (havelab) o->t = star ? T_STARMEM : T_LAB;
    else bad("bad operand");
    return s;
}
static void dbyte(u8 c) { if (nD == cD) { cD = cD * 2 + 256; D = realloc(D, cD); } D[nD++] = c; if (curlab >= 0) L[curlab].dsize = nD - L[curlab].doff; }
static int sufw(char c) { return c == 'b' ? 1 : c == 'w' ? 2 : c == 'l' ? 4 : c == 'q' ? 8 : 0; }
static int cc(const char* s) {
    static const char* n[] = { "e", "z", "ne", "nz", "a", "nbe", "ae", "nb", "nc", "b", "c", "nae", "be", "na", "g", "nle", "ge", "nl", "l", "nge", "le", "ng", "s", "ns" };
    static const u8 v[] = { 0, 0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 11 };
    for (int i = 0; i < 24; i++) if (!strcmp(n[i], s)) return v[i]; return -1;
}
static int fits32(u64 v) { i64 x = (i64)v; return (x >= -2147483648ll) & (x <= 2147483647ll); }
static void chkimm32(op* o) { if (o->t == T_IMM && o->lab < 0) { if (!fits32(o->imm)) bad("64-bit immediate not encodable"); } }
static void chkreg(op* o, int w) { if (o->t == T_REG && o->size != w) bad("register size does not match the suffix"); if (o->t == T_REG && o->reg == RIP) bad("rip operand"); }
static struct { const char* n; u8 op; } bases[] = { { "mov", I_MOV }, { "add", I_ADD }, { "sub", I_SUB }, { "imul", I_IMUL }, { "mul", I_MUL }, { "div", I_DIV }, { "idiv", I_IDIV }, { "neg", I_NEG }, { "not", I_NOT }, { "and", I_AND }, { "or", I_OR }, { "xor", I_XOR }, { "sal", I_SAL }, { "shl", I_SAL }, { "sar", I_SAR }, { "shr", I_SHR }, { "cmp", I_CMP }, { "test", I_TEST }, { "inc", I_INC }, { "dec", I_DEC }, { "lea", I_LEA }, { "push", I_PUSH }, { "pop", I_POP }, { "xchg", I_XCHG }, { "movabs", I_MOVABS } };
static struct { const char* n; u8 op; } zeros[] = { { "ret", I_RET }, { "retq", I_RET }, { "leave", I_LEAVE }, { "leaveq", I_LEAVE }, { "cbtw", I_CBTW }, { "cwtl", I_CWTL }, { "cltq", I_CLTQ }, { "cwtd", I_CWTD }, { "cltd", I_CLTD }, { "cqto", I_CQTO }, { "nop", I_NOP } };
static void encode(insn* x, const char* m, int n) {
    int k = 0; op *a = &x->o[0], *b = &x->o[1]; int no = x->n; char t[24]; if (n > 20) bad("no such instruction"); memcpy(t, m, n); t[n] = 0;
    for (unsigned i = 0; i < sizeof zeros / sizeof *zeros; i++) if (!strcmp(t, zeros[i].n)) { if (no) bad("operands not expected"); x->op = zeros[i].op; return; }
    if (!strcmp(t, "call") || !strcmp(t, "callq")) { x->op = I_CALL; if (no != 1 || !(a->t == T_LAB || a->t == T_STARREG || a->t == T_STARMEM)) bad("bad call operand"); if (a->t == T_STARREG && a->size != 8) bad("bad call operand"); return; }
    if (!strcmp(t, "jmp")) { x->op = I_JMP; if (no != 1 || !(a->t == T_LAB || a->t == T_STARREG || a->t == T_STARMEM)) bad("bad jump operand"); return; }
    if (t[0] == 'j' && (k = cc(t + 1)) >= 0) { x->op = I_J; x->cc = k; if (no != 1 || a->t != T_LAB) bad("bad jump operand"); return; }
    if (!strncmp(t, "set", 3) && (k = cc(t + 3)) >= 0) { x->op = I_SET; x->cc = k; x->w = 1; if (no != 1 || !((a->t == T_REG && a->size == 1) || a->t == T_MEM)) bad("bad setcc operand"); return; }
    if (!strncmp(t, "cmov", 4)) { int q = n - 1; int w = sufw(t[q]); char u[24]; memcpy(u, t + 4, q - 4); u[q - 4] = 0; if (w > 1 && (k = cc(u)) >= 0) ; else if ((k = cc(t + 4)) >= 0 && b->t == T_REG) w = b->size; else bad("no such instruction"); x->op = I_CMOV; x->cc = k; x->w = w; if (no != 2 || b->t != T_REG || (a->t != T_REG && a->t != T_MEM)) bad("bad cmov operands"); chkreg(a, w); chkreg(b, w); return; }
    if (n == 6 && (!strncmp(t, "movs", 4) || !strncmp(t, "movz", 4))) {
        int w1 = sufw(t[4]), w2 = sufw(t[5]); x->op = t[3] == 's' ? I_MOVS : I_MOVZ; x->w = w2; x->w2 = w1;
        if (!w1 || !w2 || w1 >= w2 || (w1 == 4 && x->op == I_MOVZ)) bad("no such instruction");
        if (no != 2 || b->t != T_REG || (a->t != T_REG && a->t != T_MEM)) bad("operand type mismatch"); chkreg(a, w1); chkreg(b, w2); return;
    }
    int w = sufw(t[n - 1]); int bl = w ? n - 1 : n; int found = -1;
    for (unsigned i = 0; i < sizeof bases / sizeof *bases; i++) if ((int)strlen(bases[i].n) == bl && !strncmp(bases[i].n, t, bl)) { found = bases[i].op; break; }
    if (found < 0) { for (unsigned i = 0; i < sizeof bases / sizeof *bases; i++) if (!strcmp(bases[i].n, t)) { found = bases[i].op; w = 0; break; } }
    if (found < 0) bad("no such instruction");
    if (!w) { if (no && x->o[no - 1].t == T_REG) w = x->o[no - 1].size; else if (no && a->t == T_REG) w = a->size; else if (found == I_PUSH || found == I_POP) w = 8; else bad("no instruction suffix"); }
    x->op = found; x->w = w;
    for (int i = 0; i < no; i++) if (x->o[i].t == T_LAB) { x->o[i].t = T_MEM; x->o[i].base = NOREG; } // absolute reference
    if (no == 2 && a->t == T_MEM && b->t == T_MEM) bad("two memory operands");
    switch (found) {
        case I_MOV: if (no != 2 || b->t == T_IMM || a->t > T_MEM || b->t > T_MEM) bad("bad operands"); chkreg(a, w); chkreg(b, w); if (w == 8 && b->t == T_MEM) chkimm32(a); break;
        case I_MOVABS: if (w != 8 || no != 2 || b->t != T_REG || a->t != T_IMM) bad("bad operands"); chkreg(b, 8); break;
        case I_LEA: if (no != 2 || a->t != T_MEM || b->t != T_REG || w == 1) bad("bad operands"); chkreg(b, w); break;
        case I_PUSH: if (no != 1 || (w != 8 && w != 2)) bad("bad push"); if (w == 2) bad("16-bit push not modelled"); chkreg(a, 8); chkimm32(a); break;
        case I_POP: if (no != 1 || w != 8 || a->t == T_IMM) bad("bad pop"); chkreg(a, 8); break;
        case I_IMUL: if (no == 1) { if (a->t == T_IMM) bad("bad operands"); chkreg(a, w); break; } if (w == 1) bad("no 8-bit two-operand imul"); if (no == 3) { if (a->t != T_IMM || x->o[2].t != T_REG) bad("bad operands"); chkreg(&x->o[2], w); chkreg(b, w); } else { if (no != 2 || b->t != T_REG) bad("bad operands"); chkreg(a, w); chkreg(b, w); } if (w == 8) chkimm32(a); break;
        case I_MUL: case I_DIV: case I_IDIV: if (no != 1 || a->t == T_IMM) bad("bad operands"); chkreg(a, w); break;
        case I_NEG: case I_NOT: case I_INC: case I_DEC: if (no != 1 || a->t == T_IMM) bad("bad operands"); chkreg(a, w); break;
        case I_SAL: case I_SAR: case I_SHR:
            if (no == 1) { x->o[1] = x->o[0]; memset(a, 0, sizeof *a); a->t = T_IMM; a->imm = 1; a->lab = -1; x->n = 2; chkreg(b, w); if (b->t == T_IMM) bad("bad operands"); break; }
            if (no != 2 || b->t == T_IMM) bad("bad operands"); chkreg(b, w); if (a->t == T_REG) { if (a->reg != RCX) bad("shift count register must be %cl"); } else if (a->t == T_IMM) { if (a->imm > 255) bad("shift count out of range"); } else bad("bad shift count"); break;
        default: if (no != 2 || b->t == T_IMM || a->t > T_MEM || b->t > T_MEM) bad("bad operands"); chkreg(a, w); chkreg(b, w); if (w == 8) chkimm32(a); break;
    }
}
static void directive(const char* s, int n) {
    const char* p = ws(s + n); char t[16]; if (n > 14) bad("unknown directive"); memcpy(t, s, n); t[n] = 0;
    if (!strcmp(t, ".text")) { sec_text = 1; curlab = -1; return; } if (!strcmp(t, ".data") || !strcmp(t, ".bss")) { sec_text = 0; curlab = -1; return; }
    if (!strcmp(t, ".section")) { sec_text = !strncmp(p, ".text", 5); curlab = -1; return; }
    if (!strcmp(t, ".globl") || !strcmp(t, ".global") || !strcmp(t, ".local")) { int k = 0; while (idc(p[k])) k++; if (!k) bad("symbol expected"); findlab(p, k); p = ws(p + k); if (*p != '\n' && *p) bad("junk at end of line"); return; }
    if (!strcmp(t, ".align") || !strcmp(t, ".p2align") || !strcmp(t, ".balign") || !strcmp(t, ".type") || !strcmp(t, ".size") || !strcmp(t, ".file") || !strcmp(t, ".ident")) return;
    if (!strcmp(t, ".comm") || !strcmp(t, ".lcomm")) { int k = 0; while (idc(p[k])) k++; int l = findlab(p, k); p = ws(p + k); if (*p == ',') p = ws(p + 1); u64 v = 0; if (!number(p, &v)) bad("size expected"); v = sx_concretize(v); if (L[l].defined) bad("symbol already defined"); L[l].defined = 1; L[l].doff = nD; int sv = curlab; curlab = l; for (u64 i = 0; i < v; i++) dbyte(0); curlab = sv; return; }
    int w = !strcmp(t, ".byte") ? 1 : !strcmp(t, ".word") || !strcmp(t, ".short") || !strcmp(t, ".value") || !strcmp(t, ".2byte") ? 2 : !strcmp(t, ".long") || !strcmp(t, ".int") || !strcmp(t, ".4byte") ? 4 : !strcmp(t, ".quad") || !strcmp(t, ".8byte") ? 8 : 0;
    if (w) {
        while (1) {
            p = ws(p); u64 v = 0; int k = number(p, &v);
            if (k) p += k; else { k = 0; while (idc(p[k])) k++; if (!k) bad("expression expected"); if (w != 8) bad("relocation truncated"); if (nR == cR) { cR = cR * 2 + 16; R = realloc(R, cR * sizeof *R); } R[nR].off = nD; R[nR].lab = findlab(p, k); R[nR].add = 0; p += k; int q = number(p, &v); if (q) { R[nR].add = (i64)v; p += q; } nR++; v = 0; }
            for (int i = 0; i < w; i++) dbyte((u8)(v >> (8 * i))); p = ws(p); if (*p != ',') break; p++;
        }
    } else if (!strcmp(t, ".zero") || !strcmp(t, ".skip") || !strcmp(t, ".space")) { u64 v; int k = number(p, &v); if (!k) bad("expression expected"); p += k; v = sx_concretize(v); if ((i64)v > 60000) bad("object too large for the model"); if ((i64)v > 0) for (u64 i = 0; i < v; i++) dbyte(0); }
    else if (!strcmp(t, ".ascii") || !strcmp(t, ".asciz") || !strcmp(t, ".string")) {
        while (1) { p = ws(p); if (*p != '"') bad("string expected"); p++;
            while (1) { char c = *p++; if (c == '"') break; if (c == '\n' || c == 0) bad("unterminated string");
                if (c != '\\') { dbyte((u8)c); continue; } c = *p++;
                switch (c) { case 'b': dbyte(8); break; case 'f': dbyte(12); break; case 'n': dbyte(10); break; case 'r': dbyte(13); break; case 't': dbyte(9); break; case 'v': dbyte(11); break; case '"': dbyte('"'); break; case '\\': dbyte('\\'); break;
                    case 'x': case 'X': { u32 v = 0; while (1) { char d = *p; int h = d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : d >= 'A' && d <= 'F' ? d - 'A' + 10 : 99; if (h > 15) break; v = v * 16 + h; p++; } dbyte((u8)v); break; }
                    default: if (c >= '0' && c <= '9') { u32 v = 0; p--; for (int i = 0; i < 3 && *p >= '0' && *p <= '9'; i++) v = v * 8 + (u32)(*p++ - '0'); dbyte((u8)v); } else if (c == '\n' || c == 0) bad("unterminated string"); else dbyte((u8)c); } }
            if (t[1] != 'a' || t[5] == 'z') dbyte(0); p = ws(p); if (*p != ',') break; p++; }
    } else bad("unknown directive");
    p = ws(p); if (*p != '\n' && *p) bad("junk at end of line");
}
void xi_load(const char* text, long n) {
    const char *s = text, *end = text + n;
    while (s < end) {
        lineno++; cur = s; curlen = 0; while (s + curlen < end && s[curlen] != '\n') curlen++;
        const char* nx = s + curlen + 1; const char* p = ws(s);
        while (*p && *p != '\n' && *p != '#') {
            int k = 0; while (idc(p[k])) k++;
            if (!k) bad("junk");
            if (p[k] == ':') { int l = findlab(p, k); if (L[l].defined) bad("symbol already defined"); L[l].defined = 1; L[l].text = sec_text; if (sec_text) L[l].insn = nI; else { L[l].doff = nD; L[l].dsize = 0; curlab = l; } p = ws(p + k + 1); continue; }
            if (p[0] == '.') { directive(p, k); break; }
            if (nI == cI) { cI = cI * 2 + 128; I = realloc(I, cI * sizeof *I); }
            insn* x = &I[nI]; memset(x, 0, sizeof *x); x->line = lineno; const char* q = ws(p + k);
            while (*q && *q != '\n' && *q != '#') { if (x->n == 3) bad("too many operands"); q = operand(q, &x->o[x->n++]); q = ws(q); if (*q == ',') { q = ws(q + 1); if (!*q || *q == '\n') bad("operand expected"); } else if (*q && *q != '\n' && *q != '#') bad("junk at end of line"); }
            if (!sec_text) bad("instruction in data section"); encode(x, p, k); nI++; break;
        }
        s = nx;
    }
}
void xi_bind(const char* name, void* addr, long size, int flags) { int l = findlab(name, (int)strlen(name)); L[l].bound = 1; L[l].addr = (u64)addr; L[l].bsize = size; L[l].flags = flags; }
void xi_ext(const char* name, int id, const char* sig) { int l = findlab(name, (int)strlen(name)); L[l].ext = 1; L[l].extid = id; L[l].sig = sig; }
void xi_link(int check) {
    if (nL > 500 || nI > 16000) { sx_fail("program too large for the model"); }
    for (int i = 0; i < nL; i++) { label* l = &L[i];
        if (l->defined && l->text) l->addr = (u64)&fnaddr[i];
        else if (l->defined) { if (!l->bound) { l->addr = (u64)malloc(l->dsize); memcpy((void*)l->addr, D + l->doff, l->dsize); } }
        else if (l->ext) l->addr = (u64)&fnaddr[i];
        else if (!l->bound) { sprintf(msg, "link error: undefined symbol %s", l->name); sx_fail(msg); }
    }
    for (int r = 0; r < nR; r++) { u64 v = L[R[r].lab].addr + (u64)R[r].add; memcpy(D + R[r].off, &v, 8); for (int i = 0; i < nL; i++) if (L[i].defined && !L[i].text && !L[i].bound && R[r].off >= L[i].doff && R[r].off + 8 <= L[i].doff + L[i].dsize) memcpy((char*)L[i].addr + (R[r].off - L[i].doff), &v, 8); }
    if (check) for (int i = 0; i < nL; i++) if (L[i].bound && L[i].defined) { label* l = &L[i];
        if (l->dsize != l->bsize) { sprintf(msg, "global %s occupies %d bytes, expected %d", l->name, l->dsize, (int)l->bsize); sx_fail(msg); }
        const u8* e = (const u8*)l->addr;
        for (int k = 0; k < l->dsize;) {
            int rel = -1; for (int r = 0; r < nR; r++) if (R[r].off == l->doff + k) rel = r;
            if (rel >= 0) { u64 ev; memcpy(&ev, e + k, 8); label* tl = &L[R[rel].lab];
                if (tl->bound) { sprintf(msg, "initial pointer in global %s", l->name); sx_assert(ev == tl->addr + (u64)R[rel].add, msg); }
                else if (tl->text || tl->ext) sx_assert(ev != 0, "initial function pointer");
                else { sprintf(msg, "string referenced by global %s", l->name); sx_assert(ev != 0, msg); const char *x = (const char*)ev, *y = (const char*)(tl->addr + (u64)R[rel].add); for (int j = 0;; j++) { sx_assert(x[j] == y[j], msg); if (!x[j]) break; } }
                k += 8; continue; }
            sprintf(msg, "initial value of global %s byte %d", l->name, k); sx_assert(D[l->doff + k] == e[k], msg); k++;
        }
    } else if (L[i].bound && !L[i].defined && !(L[i].flags & 2)) { sprintf(msg, "global %s is not defined in the output", L[i].name); sx_fail(msg); }
}
// ---- execution
static u64 r[16]; static u64 fa, fb, fr; static int fkind, fw; // flags: 0 undefined, 1 cmp(fa,fb), 2 result, 3 add
static char* stk; enum { STK = 16384 };
static u64 mk(u64 v, int w) { return w == 8 ? v : w == 4 ? (u64)(u32)v : w == 2 ? (u64)(u16)v : (u64)(u8)v; }
static i64 sxw(u64 v, int w) { return w == 8 ? (i64)v : w == 4 ? (i64)(i32)v : w == 2 ? (i64)(i16)v : (i64)(i8)v; }
static u64 ea(op* o) { u64 a = (u64)o->disp; if (o->lab >= 0) a += L[o->lab].addr; if (o->base != NOREG && o->base != RIP) a += r[o->base]; if (o->index != NOREG) a += r[o->index] * o->scale; return a; }
static u64 ld(u64 a, int w) { return w == 8 ? *(u64*)a : w == 4 ? *(u32*)a : w == 2 ? *(u16*)a : *(u8*)a; }
static void st(u64 a, u64 v, int w) { if (w == 8) *(u64*)a = v; else if (w == 4) *(u32*)a = (u32)v; else if (w == 2) *(u16*)a = (u16)v; else *(u8*)a = (u8)v; }
static u64 get(op* o, int w) { if (o->t == T_REG) return mk(r[o->reg], w); if (o->t == T_IMM) return mk(o->lab >= 0 ? L[o->lab].addr : o->imm, w); return ld(ea(o), w); }
static void setr(int k, u64 v, int w) { if (w >= 4) r[k] = mk(v, w); else if (w == 2) r[k] = (r[k] & ~0xffffull) | (u16)v; else r[k] = (r[k] & ~0xffull) | (u8)v; }
static void put(op* o, u64 v, int w) { if (o->t == T_REG) setr(o->reg, v, w); else st(ea(o), v, w); }
static void stop(insn* x, const char* why) { sprintf(msg, "compiled code: %s (line %d of output)", why, x->line); sx_fail(msg); sx_end(); }
static int cond(insn* x, int c) {
    u64 a = mk(fa, fw), b = mk(fb, fw);
    if (fkind == 0) stop(x, "branch/set on undefined flags");
    if (fkind == 1) switch (c) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; case 6: return sxw(a, fw) > sxw(b, fw); case 7: return sxw(a, fw) >= sxw(b, fw); case 8: return sxw(a, fw) < sxw(b, fw); case 9: return sxw(a, fw) <= sxw(b, fw); case 10: return sxw(mk(a - b, fw), fw) < 0; default: return sxw(mk(a - b, fw), fw) >= 0; }
    u64 q = mk(fr, fw); int z = q == 0, s = sxw(q, fw) < 0, cf = 0, of = 0;
    if (fkind == 3) { cf = q < a; of = ((sxw(a, fw) < 0) == (sxw(b, fw) < 0)) & ((sxw(a, fw) < 0) != s); }
    switch (c) { case 0: return z; case 1: return !z; case 2: return !cf & !z; case 3: return !cf; case 4: return cf; case 5: return cf | z; case 6: return !z & (s == of); case 7: return s == of; case 8: return s != of; case 9: return z | (s != of); case 10: return s; default: return !s; }
}
static void flcmp(u64 a, u64 b, int w) { fkind = 1; fa = a; fb = b; fw = w; }
static void flres(u64 v, int w) { fkind = 2; fr = v; fw = w; }
static u64 garbage(void) { u64* p = malloc(8); return *p; }
static void havoc(void) { static const int cs[] = { RCX, RDX, RSI, RDI, R8, R9, R10, R11 }; for (int i = 0; i < 8; i++) r[cs[i]] = garbage(); fkind = 0; }
static const int ar[] = { RDI, RSI, RDX, RCX, R8, R9 };
u64 xt_canon(u64 v, char t) { switch (t) { case 'c': return (u64)(i64)(i8)v; case 'C': return (u8)v; case 's': return (u64)(i64)(i16)v; case 'S': return (u16)v; case 'i': return (u64)(i64)(i32)v; case 'I': return (u32)v; default: return v; } }
static int tw(char t) { return t == 'c' || t == 'C' ? 1 : t == 's' || t == 'S' ? 2 : t == 'i' || t == 'I' ? 4 : 8; }
static void extcall(insn* x, label* l) {
    // sig: "<ret>:<args>"
    if (r[RSP] & 15) stop(x, "stack not 16-byte aligned at a call");
    const char* s = l->sig; char rt = s[0]; u64 v[16]; int n = 0;
    for (const char* a = s + 2; *a; a++, n++) { u64 raw = n < 6 ? r[ar[n]] : ld(r[RSP] + 8 * (n - 6), tw(*a)); v[n] = xt_canon(raw, *a); if (sx_depends_uninit(v[n])) stop(x, "argument depends on an uninitialised/clobbered value"); }
    u64 q = xt_call(l->extid, n, v); havoc();
    if (rt == 'v') r[RAX] = garbage(); else { int w = tw(rt); u64 g = garbage(); r[RAX] = w == 8 ? q : w == 4 ? ((g << 32) | (u32)q) : w == 2 ? ((g << 16) | (u16)q) : ((g << 8) | (u8)q); }
}
static void docall(insn* x, int* pc, int l) {
    if (L[l].ext && !L[l].defined) { extcall(x, &L[l]); return; }
    if (!L[l].text || L[l].insn < 0) stop(x, "call to a non-function");
    r[RSP] -= 8; *(u64*)r[RSP] = (u64)&retaddr[*pc]; *pc = L[l].insn;
}
static int labat(insn* x, u64 a) { u64 d = a - (u64)&fnaddr[0]; d = sx_concretize(d); if (d >= (u64)nL) stop(x, "indirect call to a non-function address"); return (int)d; }
u64 xi_call(const char* fn, const char* sig, const u64* args) {
    int l = -1; for (int i = 0; i < nL; i++) if (!strcmp(L[i].name, fn) && L[i].defined && L[i].text) l = i;
    if (l < 0) { sprintf(msg, "function %s is not defined in the output", fn); sx_fail(msg); sx_end(); }
    u64 save[16]; int n = 0; stk = malloc(STK); for (int i = 0; i < 16; i++) r[i] = garbage();
    int na = (int)strlen(sig) - 2, nst = na > 6 ? na - 6 : 0; r[RSP] = ((u64)stk + STK - 128 - 8 * nst) & ~15ull;
    for (const char* a = sig + 2; *a; a++, n++) { u64 g = args[n]; int w = tw(*a); if (w <= 4) g = (garbage() << 32) | (u32)xt_canon(g, *a); if (n < 6) r[ar[n]] = g; else *(u64*)(r[RSP] + 8 * (n - 6)) = g; }
    r[RAX] = garbage();
    u64 sp0 = r[RSP]; r[RSP] -= 8; *(u64*)r[RSP] = (u64)&retaddr[16383]; for (int i = 0; i < 16; i++) save[i] = r[i];
    int pc = L[l].insn; fkind = 0;
    while (1) {
        if (pc >= nI) { sx_fail("compiled code: execution runs past the last instruction"); sx_end(); }
        insn* x = &I[pc++]; op *a = &x->o[0], *b = &x->o[1]; int w = x->w; xi_steps_run++;
        switch (x->op) {
            case I_NOP: break;
            case I_MOV: if (w == 8 && b->t == T_MEM) put(b, a->t == T_IMM && a->lab < 0 ? (u64)(i64)(i32)a->imm : get(a, 8), 8); else put(b, get(a, w), w); break;
            case I_MOVABS: put(b, get(a, 8), 8); break;
            case I_MOVS: put(b, (u64)sxw(get(a, x->w2), x->w2), w); break;
            case I_MOVZ: put(b, get(a, x->w2), w); break;
            case I_LEA: put(b, ea(a), w); break;
            case I_PUSH: { u64 v = get(a, 8); r[RSP] -= 8; *(u64*)r[RSP] = v; break; }
            case I_POP: { u64 v = *(u64*)r[RSP]; r[RSP] += 8; put(a, v, 8); break; }
            case I_ADD: { u64 p = get(b, w), q = get(a, w), s = mk(p + q, w); put(b, s, w); fkind = 3; fa = p; fb = q; fr = s; fw = w; break; }
            case I_SUB: { u64 p = get(b, w), q = get(a, w); put(b, mk(p - q, w), w); flcmp(p, q, w); break; }
            case I_CMP: flcmp(get(b, w), get(a, w), w); break;
            case I_TEST: flres(get(a, w) & get(b, w), w); break;
            case I_AND: { u64 v = get(b, w) & get(a, w); put(b, v, w); flres(v, w); break; }
            case I_OR: { u64 v = get(b, w) | get(a, w); put(b, v, w); flres(v, w); break; }
            case I_XOR: { u64 v = a->t == T_REG && b->t == T_REG && a->reg == b->reg ? 0 : get(b, w) ^ get(a, w); put(b, v, w); flres(v, w); break; }
            case I_INC: { u64 v = mk(get(a, w) + 1, w); put(a, v, w); fkind = 0; break; }
            case I_DEC: { u64 v = mk(get(a, w) - 1, w); put(a, v, w); fkind = 0; break; }
            case I_NEG: { u64 v = get(a, w); put(a, mk(0 - v, w), w); flcmp(0, v, w); break; }
            case I_NOT: put(a, mk(~get(a, w), w), w); break;
            case I_SAL: case I_SAR: case I_SHR: {
                u64 c = (a->t == T_IMM ? a->imm : (u64)(u8)r[RCX]) & (w == 8 ? 63 : 31); u64 v = get(b, w), q;
                if (x->op == I_SAL) q = w == 8 ? v << c : (u64)((u32)v << (u32)c); else if (x->op == I_SHR) q = w == 8 ? v >> c : (u64)((u32)v >> (u32)c); else q = w == 8 ? (u64)((i64)v >> c) : (u64)(u32)((i32)sxw(v, w) >> (i32)c);
                put(b, mk(q, w), w); fkind = 0; break; }
            case I_IMUL: if (x->n == 1) { if (w == 1) setr(RAX, (u64)((i64)(i8)r[RAX] * (i64)(i8)get(a, 1)), 2); else if (w == 8) { u64 p = r[RAX], q = get(a, 8); r[RAX] = p * q; r[RDX] = garbage(); } else { i64 q = sxw(r[RAX], w) * sxw(get(a, w), w); setr(RAX, (u64)q, w); setr(RDX, (u64)(q >> (8 * w)), w); } }
                else if (x->n == 3) put(&x->o[2], mk(get(b, w) * get(a, w), w), w); else put(b, mk(get(b, w) * get(a, w), w), w); fkind = 0; break;
            case I_MUL: if (w == 1) setr(RAX, (u64)(u8)r[RAX] * get(a, 1), 2); else if (w == 8) { r[RAX] = r[RAX] * get(a, 8); r[RDX] = garbage(); } else { u64 q = mk(r[RAX], w) * get(a, w); setr(RAX, q, w); setr(RDX, q >> (8 * w), w); } fkind = 0; break;
            case I_DIV: case I_IDIV: {
                u64 d = get(a, w); if (sx_depends_uninit(d)) stop(x, "divisor depends on a clobbered value"); if (d == 0) stop(x, "division trap: zero divisor");
                if (w == 1) { u64 n16 = mk(r[RAX], 2), q, m; if (x->op == I_IDIV) { i64 s = sxw(n16, 2), t = sxw(d, 1); q = (u64)(s / t); m = (u64)(s % t); if ((i64)q != sxw(q, 1)) stop(x, "division trap: quotient overflow"); } else { q = n16 / d; m = n16 % d; if (q > 255) stop(x, "division trap: quotient overflow"); } setr(RAX, ((m & 255) << 8) | (q & 255), 2); fkind = 0; break; }
                u64 lo = mk(r[RAX], w), hi = mk(r[RDX], w), q, m; 
                if (sx_depends_uninit(hi)) stop(x, "division trap: dividend high half is a clobbered value");
                if (x->op == I_IDIV) { if (hi != mk((u64)(sxw(lo, w) >> (8 * w - 1)), w)) stop(x, "dividend high half is not the sign extension");
                    if (sxw(d, w) == -1 && lo == mk(1ull << (8 * w - 1), w)) stop(x, "division trap: quotient overflow");
                    if (w == 8) { q = (u64)((i64)lo / (i64)d); m = (u64)((i64)lo % (i64)d); } else if (w == 4) { q = (u64)(u32)((i32)lo / (i32)d); m = (u64)(u32)((i32)lo % (i32)d); } else { q = (u64)((i32)(i16)lo / (i32)(i16)d); m = (u64)((i32)(i16)lo % (i32)(i16)d); } }
                else { if (hi != 0) stop(x, "dividend high half is not zero"); if (w == 8) { q = lo / d; m = lo % d; } else { q = (u64)((u32)lo / (u32)d); m = (u64)((u32)lo % (u32)d); } }
                setr(RAX, q, w); setr(RDX, m, w); fkind = 0; break; }
            case I_CBTW: setr(RAX, (u64)sxw(r[RAX], 1), 2); break; case I_CWTL: setr(RAX, (u64)sxw(r[RAX], 2), 4); break; case I_CLTQ: setr(RAX, (u64)sxw(r[RAX], 4), 8); break;
            case I_CWTD: setr(RDX, (u64)(sxw(r[RAX], 2) >> 15), 2); break; case I_CLTD: setr(RDX, (u64)(sxw(r[RAX], 4) >> 31), 4); break; case I_CQTO: setr(RDX, (u64)((i64)r[RAX] >> 63), 8); break;
            case I_SET: { u64 v = (u64)cond(x, x->cc); put(a, v, 1); break; }
            case I_CMOV: { u64 v = get(a, w); if (cond(x, x->cc)) put(b, v, w); else put(b, get(b, w), w); break; }
            case I_XCHG: { u64 p = get(a, w), q = get(b, w); put(a, q, w); put(b, p, w); break; }
            case I_J: if (!L[a->lab].defined || !L[a->lab].text) stop(x, "jump to undefined label"); if (cond(x, x->cc)) pc = L[a->lab].insn; break;
            case I_JMP: if (a->t == T_LAB) { if (!L[a->lab].defined || !L[a->lab].text) stop(x, "jump to undefined label"); pc = L[a->lab].insn; } else stop(x, "indirect jump not modelled"); break;
            case I_LEAVE: r[RSP] = r[RBP]; r[RBP] = *(u64*)r[RSP]; r[RSP] += 8; break;
            case I_CALL: if (a->t == T_LAB) docall(x, &pc, a->lab); else docall(x, &pc, labat(x, a->t == T_STARREG ? r[a->reg] : ld(ea(a), 8))); break;
            case I_RET: { u64 t = *(u64*)r[RSP]; r[RSP] += 8; if (sx_depends_uninit(t)) stop(x, "return address corrupted"); t -= (u64)&retaddr[0]; t = sx_concretize(t); if (t > 16383) stop(x, "return address corrupted");
                if (t == 16383) { if (r[RSP] != sp0) stop(x, "stack pointer not restored on return");
                    static const int pr[] = { RBX, RBP, R12, R13, R14, R15 }; for (int i = 0; i < 6; i++) { // garbage values are distinct tainted variables: identity, not value, is compared
                        u64 dlt = r[pr[i]] - save[pr[i]]; if (sx_depends_uninit(dlt) || sx_is_symbolic(dlt) || dlt != 0) { sprintf(msg, "compiled code: callee-saved register %s not preserved", rq[pr[i]]); sx_fail(msg); } }
                    free(stk); char rt = sig[0]; return rt == 'v' ? 0 : xt_canon(r[RAX], rt); }
                pc = (int)t; break; }
            default: stop(x, "instruction not modelled");
        }
    }
}
// ---- traces
enum { XT = 64 };
static struct { int id, n; u64 v[16]; u64 ret; } tr[XT]; static int ntr, xtmode, xtpos;
void xt_begin(int mode) { xtmode = mode; xtpos = 0; if (!mode) ntr = 0; }
u64 xt_call(int id, int n, const u64* v) {
    if (!xtmode) { if (ntr == XT) { sx_end(); } tr[ntr].id = id; tr[ntr].n = n; for (int i = 0; i < n; i++) tr[ntr].v[i] = v[i]; char nm[16]; sprintf(nm, "ret%d", ntr); u64 q; sx_make_symbolic(&q, 8, nm); tr[ntr].ret = q; return tr[ntr++].ret; }
    if (xtpos >= ntr) { sx_fail("compiled code makes an extra external call"); sx_end(); }
    sx_assert(tr[xtpos].id == id, "external calls are made in a different order"); if (tr[xtpos].id != id) sx_end();
    for (int i = 0; i < n; i++) { sprintf(msg, "argument %d of external call %d", i, xtpos); sx_assert(v[i] == tr[xtpos].v[i], msg); }
    return tr[xtpos++].ret;
}
void xt_end(void) { if (xtmode) sx_assert(xtpos == ntr, "compiled code misses an external call"); }
