"""Program specifications for translation validation: one spec yields the symbolic harness (umlcc's real main() compiles the
text, the emitted assembly is executed symbolically, a clang-compiled reference of the same text is executed symbolically) and
the native replay driver (native umlcc + gcc + CPU)."""
import re

CT = {'c': 'char', 'C': 'unsigned char', 's': 'short', 'S': 'unsigned short', 'i': 'int', 'I': 'unsigned int', 'l': 'long',
      'L': 'unsigned long', 'q': 'long long', 'Q': 'unsigned long long', 'v': 'void', 'p': 'void*', 'P': 'int*'}
WID = {'c': 1, 'C': 1, 's': 2, 'S': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8, 'p': 8, 'P': 8}
EXT_RE = re.compile(r'\be([vcCsSiIlLqQ])_([cCsSiIlLqQ]*)(?:_\d+)?\b')
HOLE_RE = re.compile('\u00ab(\\w+)\u00bb')  # one byte of the text: symbolic, constrained by Prog.hpre
LIT_RE = re.compile(r'#(\w+):(\d+):([a-zA-Z]+)(?::([dxo]))?(?::([uUlL]*))?#')


MAGIC = {'c': 0x5eed1234, 'i': 0x5eed1234, 'I': 0x9eed1234, 'l': 0x5eed1234deadbee5, 'L': 0x9eed1234deadbee5, 'q': 0x5eed1234deadbee5, 'Q': 0x9eed1234deadbee5}
TMAX = {'c': 2**31 - 1, 'i': 2**31 - 1, 'I': 2**32 - 1, 'l': 2**63 - 1, 'L': 2**64 - 1, 'q': 2**63 - 1, 'Q': 2**64 - 1}


class Prog:
    def __init__(self, src, ret='i', params=(), pre='1', fn='f', globs=(), symglobs=(), ptrglobs=(), tag='', expect='ok', refsrc=None, call=True, lpre='1', names=None, setup='', holes=None, accept=None, chelp=''):
        self.chelp = chelp  # C helpers for the conditions
        self.accept = accept  # expect='iff': C condition over literals and holes under which the program is valid
        self.lpre, self._names, self.setup, self.holes = lpre, names, setup, dict(holes or {})
        self.src, self.ret, self.params, self.pre, self.fn = src, ret, list(params), pre, fn
        self.globs, self.symglobs, self.ptrglobs, self.tag, self.expect, self.refsrc, self.call = list(globs), list(symglobs), list(ptrglobs), tag, expect, refsrc, call

    def names(self):
        return self._names or [chr(ord('a') + i) for i in range(len(self.params))]

    def exts(self):
        return sorted(set(m.group(0) for m in EXT_RE.finditer(self.src)))

    def sig(self):
        return self.ret + ':' + ''.join('p' if len(p) > 1 else p for p in self.params)

    def lits(self):
        return [(m.start(), m.group(0), m.group(1), int(m.group(2)), m.group(3), m.group(4) or 'd') for m in LIT_RE.finditer(self.src)]

    def text(self, values=None):
        """umlcc input text; values: literal name -> int (None: the magic constants)."""
        def rep(m):
            v = values[m.group(1)] if values else self.magic(m.group(1))
            return {'d': '%d', 'x': '0x%x', 'o': '0%o'}[m.group(4) or 'd'] % v + (m.group(5) or '')
        return HOLE_RE.sub(lambda m: chr(values[m.group(1)]) if values and m.group(1) in values else (self.holes.get(m.group(1)) or ('', '0'))[1], LIT_RE.sub(rep, self.src).replace('@', ''))

    def hole_offsets(self):
        """[(name, offset in text(None))]"""
        out = []
        t = LIT_RE.sub(lambda m: {'d': '%d', 'x': '0x%x', 'o': '0%o'}[m.group(4) or 'd'] % self.magic(m.group(1)) + (m.group(5) or ''), self.src).replace('@', '')
        while True:
            m = HOLE_RE.search(t)
            if not m:
                return out
            out.append((m.group(1), m.start()))
            t = t[:m.start()] + '0' + t[m.end():]

    def uholes(self):
        """each hole once, with its first offset"""
        out = {}
        for nm, off in self.hole_offsets():
            out.setdefault(nm, off)
        return list(out.items())

    def magic(self, name):
        """a value of the literal's type class that occurs nowhere else"""
        for i, (_, _, nm, nd, ty, form) in enumerate(self.lits()):
            if nm == name:
                return MAGIC[ty] + 7919 * i

    def bound(self, lit):
        return min({'d': 10, 'x': 16, 'o': 8}[lit[5]] ** lit[3], TMAX[lit[4]] + 1)

    def ref(self, k):
        s = self.refsrc if self.refsrc is not None else self.src
        def rep(m):
            return '((%s)@K%s)' % (CT[m.group(3)], m.group(1))
        s = LIT_RE.sub(rep, s)
        return s.replace('@', 'p%d_' % k)


CODE = {'char': 'c', 'int': 'i', 'unsigned': 'I', 'unsigned int': 'I', 'long': 'l', 'long int': 'l', 'unsigned long': 'L', 'long long': 'q', 'unsigned long long': 'Q', 'void': 'v'}
SIG_RE = re.compile(r'([\w ]+?)\s*(\**)\s*@f\(([^)]*)\)\s*\{')


def P(src, pre='1', globs='', sym='', ptr='', buf=4, expect='ok', tag='', ref=None, call=True, lpre='1', setup='', holes=None, accept=None, chelp=''):
    """Prog with the signature of @f read off the text: scalar parameters are symbolic values, `T* x` parameters are pointers
    to symbolic buffers of `buf` elements."""
    globs, sym, ptr = globs.split(), sym.split(), ptr.split()
    if accept is not None:
        expect = 'iff'
    if expect in ('any', 'reject') or expect == 'iff' and ref is None:
        return Prog(src, expect=expect, tag=tag or src, holes=holes, lpre=lpre, accept=accept, chelp=chelp)
    if not call:
        return Prog(src, 'v', [], pre, globs=globs, ptrglobs=ptr, tag=tag or src, refsrc=ref, call=False, expect=expect, lpre=lpre, setup=setup, holes=holes)
    m = SIG_RE.search(ref if ref is not None and '@f(' in ref else src)
    assert m, src
    ret = 'p' if m.group(2) else CODE[m.group(1).split('}')[-1].split(';')[-1].strip()]
    ps, names = [], []
    for q in m.group(3).split(','):
        q = q.strip()
        if q in ('', 'void'):
            continue
        n = re.match(r'(.*?)(\**)\s*(\w+)$', q)
        t = n.group(1).strip()
        names.append(n.group(3))
        if n.group(2):
            ps.append('%s%s[%d]' % (t, n.group(2)[1:], buf))
        else:
            ps.append(CODE[t])
    return Prog(src, ret, ps, pre, globs=globs, symglobs=sym, ptrglobs=ptr, tag=tag or src, refsrc=ref, lpre=lpre, names=names, expect=expect, accept=accept, chelp=chelp, setup=setup, holes=holes)


def has_ref(p):
    return p.expect in ('ok', 'maybe') or p.expect == 'iff' and p.refsrc is not None


def ext_sig(name):
    m = EXT_RE.match(name)
    return m.group(1), m.group(2)


def cstr(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    out, line = [], ''
    for c in b:
        ch = chr(c)
        if 32 <= c < 127 and ch not in '"\\?':
            line += ch
        else:
            line += '\\%03o' % c
        if c == 10 or len(line) > 100:
            out.append(line)
            line = ''
    out.append(line)
    return '\n  '.join('"%s"' % l for l in out)


def emit_batch(progs):
    """One C file with a `harness` entry that forks over the programs."""
    o = ['#include "xc.h"', 'void* malloc(unsigned long); void* memcpy(void*, const void*, unsigned long);']
    exts = sorted(set(e for p in progs if has_ref(p) for e in p.exts()))
    eid = {e: i for i, e in enumerate(exts)}
    for e in exts:
        r, a = ext_sig(e)
        ps = ', '.join('%s a%d' % (CT[c], i) for i, c in enumerate(a)) or 'void'
        vs = ', '.join('xt_canon((u64)a%d, \'%s\')' % (i, c) for i, c in enumerate(a)) or '0'
        o.append('%s %s(%s) { u64 v[] = { %s }; %sxt_call(%d, %d, v); }' % (CT[r], e, ps, vs, '' if r == 'v' else 'return (%s)' % CT[r], eid[e], len(a)))
    for k, p in enumerate(progs):
        t = p.text()
        for (_, _, nm, _, _, _) in p.lits():
            o.append('static u64 p%d_K%s;' % (k, nm))
        for nm, _ in p.uholes():
            o.append('static u8 p%d_H%s;' % (k, nm))
        if has_ref(p):
            o.append('#line 1 "prog%d"' % k)
            o.append(p.ref(k))
            o.append('#line 1 "drv%d"' % k)
        if p.chelp:
            o.append(p.chelp.replace('@', 'p%d_' % k))
        if p.lpre != '1':
            o.append('static int lpre_%d(void) { return %s; }' % (k, p.lpre.replace('@', 'p%d_' % k)))
        o.append('static void prog_%d(void) {' % k)
        o.append('  static const char z_s[] = %s; long z_n = sizeof z_s - 1; char* z_t = malloc(z_n + 1); memcpy(z_t, z_s, z_n + 1);' % cstr(t))
        for l in p.lits():
            o.append('  xc_lit(%dull, &p%d_K%s, %s, "%s");' % (p.magic(l[2]), k, l[2], '%dull' % p.bound(l) if p.bound(l) < 2**64 else '0', l[2]))
        if p.lpre != '1':
            o.append('  xc_litpre(lpre_%d);' % k)
        first = dict(p.uholes())
        for nm, off in p.hole_offsets():
            if off == first[nm]:
                o.append('  sx_make_symbolic(z_t + %d, 1, "%s"); p%d_H%s = (u8)z_t[%d];' % (off, nm, k, nm, off))
            else:
                o.append('  z_t[%d] = z_t[%d];' % (off, first[nm]))
        for nm, _ in p.uholes():
            c = p.holes[nm][0]
            o.append('  { int h = p%d_H%s; sx_assume(%s); }' % (k, nm, c.replace('@', 'p%d_' % k)))
        if len(p.uholes()) > 2:  # the lexer looks bytes up by hash, value by value: split on the leading ones at once
            for nm, off in p.uholes()[:-1]:
                o.append('  z_t[%d] = (char)sx_concretize((u8)z_t[%d]);' % (off, off))
        if p.expect == 'any':
            o.append('  xc_try(z_t, z_n); sx_cover("compared"); }')
            continue
        if p.expect == 'reject':
            o.append('  xc_must_reject(z_t, z_n); }')
            continue
        if p.expect == 'iff':
            o.append('  int z_acc = xc_try(z_t, z_n); int z_ok = !!(%s); sx_assert(!(z_acc && !z_ok), "umlcc accepts an invalid program"); sx_assert(!(z_ok && !z_acc), "umlcc rejects a valid program");' % p.accept.replace('@', 'p%d_' % k))
            o.append('  if (!z_acc) { sx_cover("compared"); return; }')
            if not has_ref(p):
                o.append('  sx_cover("compared"); }')
                continue
        o.append('  %s xs_reset();' % {'ok': 'xc_compile(z_t, z_n);', 'maybe': 'if (!xc_try(z_t, z_n)) return;', 'iff': ''}[p.expect])
        for g in p.globs:
            o.append('  xi_bind("%s", &p%d_%s, sizeof p%d_%s, %d); xs_region(&p%d_%s, sizeof p%d_%s, "%s");' % (g, k, g, k, g, 1 if g in p.ptrglobs else 0, k, g, k, g, g))
        for e in p.exts():
            r, a = ext_sig(e)
            o.append('  xi_ext("%s", %d, "%s:%s");' % (e, eid[e], r, a))
        if p.setup:
            o.append('  ' + p.setup.replace('@', 'p%d_' % k))
        o.append('  xi_link(1);')
        if not p.call:
            o.append('  sx_cover("compared"); }')
            continue
        for nm, ty in zip(p.names(), p.params):
            if len(ty) == 1:
                o.append('  %s %s; sx_make_symbolic(&%s, sizeof %s, "%s");' % (CT[ty], nm, nm, nm, nm))
            else:
                m = re.match(r'(.*)\[(\d+)\]$', ty)
                base = m.group(1).replace('@', 'p%d_' % k)
                o.append('  %s %s[%s]; sx_make_symbolic(%s, sizeof %s, "%s"); xs_region(%s, sizeof %s, "%s");' % (base, nm, m.group(2), nm, nm, nm, nm, nm, nm))
        for g in p.symglobs:
            o.append('  sx_make_symbolic(&p%d_%s, sizeof p%d_%s, "%s");' % (k, g, k, g, g))
        o.append('  sx_assume(%s);' % p.pre.replace('@', 'p%d_' % k))
        o.append('  xs_save(); xt_begin(0);')
        call = 'p%d_%s(%s)' % (k, p.fn, ', '.join(p.names()))
        o.append('  %s;' % call if p.ret == 'v' else '  u64 z_r = xt_canon((u64)%s, \'%s\');' % (call, p.ret))
        o.append('  xs_swap(); xt_begin(1); u64 z_av[] = { %s };' % (', '.join('(u64)' + n for n in p.names()) or '0'))
        o.append('  u64 z_q = xi_call("%s", "%s", z_av); xt_end();' % (p.fn, p.sig()))
        if p.ret != 'v':
            o.append('  sx_assert(z_q == z_r, "return value differs from the C semantics");')
        o.append('  xs_compare(); sx_cover("compared"); }')
    o.append('void harness(void) { switch (sx_choice(%d, "prog")) {' % len(progs))
    for k in range(len(progs)):
        o.append('  case %d: prog_%d(); break;' % (k, k))
    o.append('} }')
    return '\n'.join(o) + '\n'


# ------------------------------------------------------------------ native replay
RT = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
typedef unsigned long long u64; typedef long long i64; typedef unsigned int u32; typedef int i32; typedef unsigned short u16; typedef short i16; typedef unsigned char u8; typedef signed char i8;
u64 rt_sp, rt_regs[6], rt_stk, rt_misaligned, rt_abi, rt_ret, rt_sp1; u64 rt_fn, rt_args, rt_n;
void rt_tramp(void);
__asm__(".text\nrt_tramp:\n pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp, rt_sp(%rip)\n andq $-16, %rsp\n"
 " movq rt_args(%rip), %r10\n movq rt_n(%rip), %rax\n cmpq $6, %rax\n jle 2f\n testq $1, %rax\n jz 1f\n subq $8, %rsp\n1: movq -8(%r10,%rax,8), %rcx\n pushq %rcx\n decq %rax\n cmpq $6, %rax\n jg 1b\n2:\n"
 " movq %rsp, rt_sp1(%rip)\n movq (%r10), %rdi\n movq 8(%r10), %rsi\n movq 16(%r10), %rdx\n movq 24(%r10), %rcx\n movq 32(%r10), %r8\n movq 40(%r10), %r9\n"
 " movabsq $0x1111222233334444, %rbx\n leaq 1(%rbx), %r12\n leaq 2(%rbx), %r13\n leaq 3(%rbx), %r14\n leaq 4(%rbx), %r15\n leaq 5(%rbx), %rbp\n movabsq $0xdeadbeefcafef00d, %rax\n movq %rax, %r10\n movq rt_fn(%rip), %r11\n call *%r11\n"
 " movq %rax, rt_ret(%rip)\n movq $0, rt_abi(%rip)\n cmpq %rsp, rt_sp1(%rip)\n jne 9f\n movabsq $0x1111222233334444, %rcx\n cmpq %rcx, %rbx\n jne 9f\n incq %rcx\n cmpq %rcx, %r12\n jne 9f\n incq %rcx\n cmpq %rcx, %r13\n jne 9f\n incq %rcx\n cmpq %rcx, %r14\n jne 9f\n incq %rcx\n cmpq %rcx, %r15\n jne 9f\n incq %rcx\n cmpq %rcx, %rbp\n jne 9f\n jmp 8f\n9: movq $1, rt_abi(%rip)\n8: movq rt_sp(%rip), %rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
 "rt_extcommon:\n movq %rdi, rt_regs(%rip)\n movq %rsi, 8+rt_regs(%rip)\n movq %rdx, 16+rt_regs(%rip)\n movq %rcx, 24+rt_regs(%rip)\n movq %r8, 32+rt_regs(%rip)\n movq %r9, 40+rt_regs(%rip)\n leaq 8(%rsp), %rcx\n movq %rcx, rt_stk(%rip)\n testq $15, %rcx\n jz 1f\n movq $1, rt_misaligned(%rip)\n1: pushq %rbp\n movq %rsp, %rbp\n andq $-16, %rsp\n movq %rax, %rdi\n call rt_ext\n movq %rbp, %rsp\n popq %rbp\n movabsq $0xa5a5a5a5a5a5a5a5, %rcx\n movq %rcx, %rdx\n movq %rcx, %rsi\n movq %rcx, %rdi\n movq %rcx, %r8\n movq %rcx, %r9\n movq %rcx, %r10\n movq %rcx, %r11\n ret\n");
static u64 canon(u64 v, char t) { switch (t) { case 'c': return (u64)(i64)(i8)v; case 'C': return (u8)v; case 's': return (u64)(i64)(i16)v; case 'S': return (u16)v; case 'i': return (u64)(i64)(i32)v; case 'I': return (u32)v; default: return v; } }
static const char* rt_sigs[]; static const u64 rt_rets[];
static int rt_mode, rt_pos, rt_ntr, rt_bad; static struct { int id; u64 v[16]; } rt_tr[4096];
static void rt_fail(const char* m) { if (!rt_bad) printf("MISMATCH: %s\n", m); rt_bad = 1; }
u64 rt_ext(u64 id) { const char* s = rt_sigs[id]; u64 v[16]; int n = 0; for (const char* a = s + 2; *a; a++, n++) v[n] = canon(n < 6 ? rt_regs[n] : ((u64*)rt_stk)[n - 6], *a);
  if (rt_mode && rt_misaligned) rt_fail("stack misaligned at external call"); rt_misaligned = 0; int k = rt_pos++;
  if (k >= 4096) { rt_fail("too many calls"); exit(7); }
  if (!rt_mode) { rt_tr[k].id = (int)id; memcpy(rt_tr[k].v, v, sizeof v); rt_ntr = rt_pos; }
  else if (k >= rt_ntr) { rt_fail("extra external call"); exit(7); } else if (rt_tr[k].id != (int)id) rt_fail("external call order"); else for (int i = 0; i < n; i++) if (rt_tr[k].v[i] != v[i]) rt_fail("external call argument");
  u64 q = k < 64 ? rt_rets[k] : 0, g = 0x5a5a5a5a5a5a5a5aull; char t = s[0]; return t == 'i' || t == 'I' ? (g << 32) | (u32)q : t == 's' || t == 'S' ? (g << 16) | (u16)q : t == 'c' || t == 'C' ? (g << 8) | (u8)q : t == 'v' ? g : q; }
static u64 rt_call(void* f, const u64* a, int n) { rt_fn = (u64)f; rt_args = (u64)a; rt_n = n; rt_tramp(); if (rt_abi) rt_fail("callee-saved register or stack pointer not preserved"); return rt_ret; }
'''


def emit_native(p, syms):
    """C driver for one program with concrete inputs. syms: {name: bytes}."""
    o = [RT]
    exts = p.exts()
    for i, e in enumerate(exts):
        r, a = ext_sig(e)
        o.append('%s %s(%s);' % (CT[r], e, ', '.join(CT[c] for c in a) or 'void'))
        o.append('__asm__(".text\\n.globl %s\\n%s: movq $%d, %%rax\\n jmp rt_extcommon\\n");' % (e, e, i))
    o.append('static const char* rt_sigs[] = { %s };' % (', '.join('"%s:%s"' % ext_sig(e) for e in exts) or '0'))
    rets = [str(int.from_bytes(syms.get('ret%d' % i, b'\0' * 8), 'little')) + 'ull' for i in range(64)]
    o.append('static const u64 rt_rets[64] = { %s };' % ', '.join(rets))
    vals = digit_values(p, syms)
    for nm, _ in p.uholes():
        o.append('static const u8 p0_H%s = %d;' % (nm, vals[nm]))
    for (_, _, nm, _, _, form) in p.lits():
        o.append('static const u64 p0_K%s = %dull;' % (nm, vals[nm]))
    o.append('#line 1 "prog"')
    o.append(p.ref(0))
    o.append('#line 1 "driver"')
    o.append('extern char U_%s[] __asm__("%s");' % (p.fn, p.fn))
    for g in p.globs:
        o.append('extern char U_%s[] __asm__("%s");' % (g, g))
    o.append('int main(void) {')
    if p.setup:
        o.append('  ' + p.setup.replace('@', 'p0_'))
    for g in p.globs:
        if g not in p.ptrglobs:
            o.append('  if (memcmp(&p0_%s, U_%s, sizeof p0_%s)) rt_fail("initial value of %s");' % (g, g, g, g))
    if p.call:
        def hexa(b):
            return '{ ' + ', '.join(str(x) for x in b) + ' }'
        for nm, ty in zip(p.names(), p.params):
            b = syms.get(nm, b'\0' * 256)
            o.append('  static const unsigned char i_%s[] = %s;' % (nm, hexa(b)))
            if len(ty) == 1:
                o.append('  %s %s; memcpy(&%s, i_%s, sizeof %s);' % (CT[ty], nm, nm, nm, nm))
            else:
                m = re.match(r'(.*)\[(\d+)\]$', ty)
                o.append('  %s %s[%s]; memcpy(%s, i_%s, sizeof %s); unsigned char s_%s[sizeof %s];' % (m.group(1).replace('@', 'p0_'), nm, m.group(2), nm, nm, nm, nm, nm))
        for g in p.symglobs:
            o.append('  static const unsigned char i_%s[] = %s; memcpy(&p0_%s, i_%s, sizeof p0_%s); memcpy(U_%s, i_%s, sizeof p0_%s);' % (g, hexa(syms.get(g, b'\0' * 64)), g, g, g, g, g, g))
        o.append('  if (!(%s)) { printf("inputs outside the precondition\\n"); return 0; }' % p.pre.replace('@', 'p0_'))
        o.append('  rt_mode = 0; rt_pos = 0;')
        call = 'p0_%s(%s)' % (p.fn, ', '.join(p.names()))
        o.append('  %s;' % call if p.ret == 'v' else '  u64 z_r = canon((u64)%s, \'%s\');' % (call, p.ret))
        for nm, ty in zip(p.names(), p.params):
            if len(ty) > 1:
                o.append('  memcpy(s_%s, %s, sizeof %s); memcpy(%s, i_%s, sizeof %s);' % (nm, nm, nm, nm, nm, nm))
        o.append('  u64 z_av[16] = { %s }; rt_mode = 1; rt_pos = 0; rt_misaligned = 0;' % ', '.join(
            ('(u64)%s' % nm if len(ty) > 1 or WID[ty] == 8 else '0x9c9c9c9c00000000ull | (u32)canon((u64)%s, \'%s\')' % (nm, ty)) for nm, ty in zip(p.names(), p.params)) if p.params else '  u64 z_av[16] = { 0 }; rt_mode = 1; rt_pos = 0;')
        o.append('  u64 z_q = rt_call((void*)U_%s, z_av, %d); if (rt_pos != rt_ntr) rt_fail("missing external call");' % (p.fn, len(p.params)))
        if p.ret != 'v':
            o.append('  z_q = canon(z_q, \'%s\'); if (z_q != z_r) { printf("return %%lld expected %%lld\\n", (long long)z_q, (long long)z_r); rt_fail("return value"); }' % p.ret)
        for nm, ty in zip(p.names(), p.params):
            if len(ty) > 1:
                o.append('  if (memcmp(s_%s, %s, sizeof %s)) rt_fail("buffer %s");' % (nm, nm, nm, nm))
        for g in p.globs:
            if g not in p.ptrglobs:
                o.append('  if (memcmp(&p0_%s, U_%s, sizeof p0_%s)) rt_fail("global %s after call");' % (g, g, g, g))
    o.append('  if (rt_bad) return 9; printf("same\\n"); return 0; }')
    return '\n'.join(o) + '\n'


def emit_accepts(p, vals):
    o = ['#include <string.h>\ntypedef unsigned long long u64; typedef unsigned char u8;']
    for nm, _ in p.uholes():
        o.append('static const u8 p0_H%s = %d;' % (nm, vals[nm]))
    for (_, _, nm, _, _, form) in p.lits():
        o.append('static const u64 p0_K%s = %dull;' % (nm, vals[nm]))
    o.append(p.chelp.replace('@', 'p0_'))
    o.append('int main(void) { return !!(%s); }' % p.accept.replace('@', 'p0_'))
    return '\n'.join(o) + '\n'


def digit_values(p, syms):
    out = {}
    for l in p.lits():
        mask = (1 << (p.bound(l) - 1).bit_length()) - 1
        out[l[2]] = int.from_bytes(syms[l[2]], 'little') & mask if l[2] in syms else p.magic(l[2])
    for nm, _ in p.hole_offsets():
        out[nm] = syms[nm][0] if nm in syms else ord(p.holes[nm][1])
    return out
