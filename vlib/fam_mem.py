"""C05 memory model: pointers, arrays, structures, sizeof, member access. C06 initializers. C09 scopes."""
import re
from .prog import P
from .families import T, S, U, WIDTH, CODE, CMP, promoted
ALIGN = {'char': 1, 'int': 4, 'unsigned': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}
ITYPES = ['char', 'int', 'unsigned', 'long', 'unsigned long']


def fam_ptr(tier):
    ps = []
    for t in T:
        # indexing with every index type; buffers of 4 elements
        for u in ITYPES + ['long long', 'unsigned long long']:
            pre = 'b >= 0 && b < 4' if u in S else 'b < 4'
            for e in ['a[b]', '*(a + b)', '*(b + a)', '(a + b)[0]', '*(a + 3 - (3 - b))', '(&a[b])[0]', '*&a[b]', '*&*(a + b)']:
                if u in U and e == '*(a + 3 - (3 - b))':
                    continue
                ps.append(P('%s @f(%s* a, %s b) { return %s; }' % (t, t, u, e), pre=pre))
            ps.append(P('void @f(%s* a, %s b, %s c) { a[b] = c; }' % (t, u, t), pre=pre))
            ps.append(P('void @f(%s* a, %s b, %s c) { *(a + b) = c; a[0] = a[b]; }' % (t, u, t), pre=pre))
            ps.append(P('%s @f(%s* a, %s b) { %s* p = a; p = p + b; return *p; }' % (t, t, u, t), pre=pre))
            ps.append(P('%s @f(%s* a, %s b) { %s* p = a; p += b; return *p; }' % (t, t, u, t), pre=pre))
            ps.append(P('%s @f(%s* a, %s b) { %s* p = a + 3; p -= b; return *p; }' % (t, t, u, t), pre=pre))
            ps.append(P('%s @f(%s* a, %s b) { %s* p = a + 3; return *(p - b); }' % (t, t, u, t), pre=pre))
            ps.append(P('%s @f(%s* a, %s b) { %s v[4]; int i; for (i = 0; i < 4; i++) v[i] = a[i]; return v[b]; }' % (t, t, u, t), pre=pre))
            ps.append(P('%s @g[4];\n%s @f(%s* a, %s b) { int i; for (i = 0; i < 4; i++) @g[i] = a[i]; return @g[b]; }' % (t, t, t, u), pre=pre, globs='g'))
            ps.append(P('%s @g[4];\nvoid @f(%s a, %s b) { @g[b] = a; }' % (t, t, u), pre=pre, globs='g', sym='g'))
            if u in S:
                npre = 'b > -4 && b < 1'
                ps.append(P('%s @f(%s* a, %s b) { %s* p = a + 3; return p[b]; }' % (t, t, u, t), pre=npre))
                ps.append(P('%s @f(%s* a, %s b) { return *((a + 3) + b); }' % (t, t, u), pre=npre))
        # increments
        for e in ['*a++', '*++a', '*(a++)', '(*a)++', '++*a', '--*a', '(*a)--', '*a++ + *a', '++a[1]', 'a[2]--', 'a[1]++ + a[1]'.replace('a[1]++ + a[1]', 'a[1]++'), '-*a', '~*a', '!*a', '*a + a[1] * a[2] - a[3]']:
            if 'a++ +' in e:
                continue
            ps.append(P('%s @f(%s* a) { return %s; }' % (t, t, e)))
            ps.append(P('%s @f(%s* a) { %s x = %s; return x - *a; }' % (t, t, t, e)))
        for s in ['*a++ = b;', '*++a = b;', '*a = *(a + 1);', '*(a + 2) = *a + b;', 'a[1] += b;', '*a -= b;', 'a[1] = a[2] = b;', '*a++ = *a;'.replace('*a++ = *a;', '*a = a[3];'), 'a++; *a = b;', 'a += 2; *a = b;', '%s* p = a + 1; %s* q = p + 1; *q = *p; p[0] = b;' % (t, t), '%s** q = &a; **q = b; (*q)[1] = b;' % t, '%s** q = &a; *q = a + 1; *a = b;' % t]:
            ps.append(P('void @f(%s* a, %s b) { %s }' % (t, t, s)))
        # differences and comparisons
        for u in ['int', 'long']:
            pre = 'b >= 0 && b < 4 && c >= 0 && c <= 4'
            ps.append(P('long @f(%s* a, %s b, %s c) { return (a + b) - (a + c); }' % (t, u, u), pre=pre))
            ps.append(P('int @f(%s* a, %s b, %s c) { return &a[b] - &a[c]; }' % (t, u, u), pre=pre))
            for op in CMP:
                ps.append(P('int @f(%s* a, %s b, %s c) { return a + b %s a + c; }' % (t, u, u, op), pre=pre))
            ps.append(P('int @f(%s* a, %s b, %s c) { return (a + b) - (a + c) < 0; }' % (t, u, u), pre=pre))
        # loops over buffers
        ps.append(P('%s @f(%s* a) { %s r = 0; %s* p; for (p = a; p < a + 4; p++) r = r + *p; return r; }' % (t, t, t, t)))
        ps.append(P('%s @f(%s* a) { %s r = 0; %s* p = a + 4; while (p > a) { p--; r = r * 3 + *p; } return r; }' % (t, t, t, t)))
        ps.append(P('int @f(%s* a) { %s* p = a; while (p != a + 4) { *p = *p + 1; ++p; } return p - a; }' % (t, t)))
        ps.append(P('void @f(%s* a) { int i; int j; for (i = 0, j = 3; i < j; i++, j--) { %s t = a[i]; a[i] = a[j]; a[j] = t; } }'.replace('i = 0, j = 3', 'i = 0').replace('i++, j--', 'i++').replace('int j;', 'int j = 3;').replace('a[j] = t;', 'a[j] = t; j--;') % (t, t)))
        # pointers to pointers, arrays of pointers, two-dimensional arrays
        ps.append(P('%s @f(%s* a, int b) { %s* v[2]; v[0] = a; v[1] = a + 2; return *v[b] + v[b][1]; }' % (t, t, t), pre='b >= 0 && b < 2'))
        ps.append(P('%s @f(%s a, int b, int c) { %s m[2][3]; int i; int j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) m[i][j] = a + i * 3 + j; return m[b][c]; }' % (t, t, t), pre='b >= 0 && b < 2 && c >= 0 && c < 3'))
        ps.append(P('%s @g[2][3];\nvoid @f(%s a, int b, int c) { @g[b][c] = a; }' % (t, t), globs='g', sym='g', pre='b >= 0 && b < 2 && c >= 0 && c < 3'))
        ps.append(P('%s @g[3][2];\n%s @f(int b, int c) { return *(*(@g + b) + c) - @g[b][0]; }' % (t, t), globs='g', sym='g', pre='b >= 0 && b < 3 && c >= 0 && c < 2'))
        ps.append(P('%s @g[2][2][2];\n%s @f(int b) { return @g[1][b][0] + @g[b][1][1]; }' % (t, t), globs='g', sym='g', pre='b >= 0 && b < 2'))
        ps.append(P('%s @g[2][3];\n%s @f(int b) { %s (*p)[3] = @g; p = p + b; return (*p)[2] + p[0][1]; }' % (t, t, t), globs='g', sym='g', pre='b >= 0 && b < 2'))
        ps.append(P('%s @s(%s v[3]) { return v[2]; }\n%s @f(%s* a) { return @s(a + 1); }' % (t, t, t, t)))
        ps.append(P('%s* @h(%s* p, int i) { return p + i; }\n%s @f(%s* a, int b) { return *@h(a, b) + @h(a, 1)[1]; }' % (t, t, t, t), pre='b >= 0 && b < 4'))
        ps.append(P('%s* @h(%s* p) { return p; }\nvoid @f(%s* a, %s b) { *@h(a) = b; @h(a)[2] = b; }' % (t, t, t, t)))
        # locals adjacent in the frame do not overlap
        ps.append(P('%s @f(%s* a) { char p = 1; %s x[3]; char q = 2; x[0] = a[0]; x[2] = a[2]; x[1] = a[1]; %s y = a[3]; char z = 3; return x[0] + x[1] + x[2] + y + p + q * 3 + z * 5; }' % (t, t, t, t)))
        ps.append(P('void @f(%s* a) { %s x = a[0]; %s y = a[1]; %s* p = &x; %s* q = &y; *p = a[2]; *q = a[3]; a[0] = x; a[1] = y; a[2] = *p; }' % (t, t, t, t, t)))
    return ps


def fam_ptrdiff(tier):
    return [P('int @f(char* a, int b, int c) { return ((a + b) - (a + c)) / 2; }', pre='b >= 0 && b < 4 && c >= 0 && c <= 4')]


def fam_struct(tier):
    ps = []
    TT = ['char', 'int', 'unsigned', 'long', 'unsigned long long'] if tier == 'quick' else T
    # every pair/triple of member types: layout observable through memory shared with the reference
    for t in TT:
        for u in TT:
            st = 'struct @S { %s x; %s y; };\n' % (t, u)
            ps.append(P(st + 'struct @S @g;\nvoid @f(%s a, %s b) { @g.x = a; @g.y = b; }' % (t, u), globs='g', sym='g'))
            ps.append(P(st + 'struct @S @g[3];\n%s @f(int b) { return @g[b].y; }' % u, globs='g', sym='g', pre='b >= 0 && b < 3'))
            ps.append(P(st + 'struct @S @g[3];\nvoid @f(int b, %s c) { struct @S* p = @g; p = p + b; p->x = c; (*p).y = p->x; }' % t, globs='g', sym='g', pre='b >= 0 && b < 3'))
            ps.append(P(st + 'long @f(%s a, %s b) { struct @S s; s.x = a; s.y = b; struct @S* p = &s; return p->x * 3 + p->y; }' % (t, u)))
            ps.append(P(st + 'int @f(void) { return sizeof(struct @S); }'))
            ps.append(P(st + 'int @f(void) { struct @S s; return sizeof s + sizeof s.y * 100; }'))
            for v in (TT if tier != 'quick' else ['char', 'long']):
                s3 = 'struct @S { %s x; %s y; %s z; };\n' % (t, u, v)
                ps.append(P(s3 + 'struct @S @g;\nvoid @f(%s a, %s b, %s c) { @g.x = a; @g.y = b; @g.z = c; }' % (t, u, v), globs='g', sym='g'))
                ps.append(P(s3 + 'struct @S @g[2];\nlong @f(int b) { return @g[b].x + @g[b].y * 3 + @g[b].z * 5; }', globs='g', sym='g', pre='b >= 0 && b < 2'))
                ps.append(P(s3 + 'int @f(void) { return sizeof(struct @S); }'))
                ps.append(P('struct @I { %s x; %s y; };\nstruct @S { char c; struct @I i; %s z; };\nstruct @S @g[2];\nvoid @f(int b, %s p, %s q, %s r) { @g[b].i.x = p; @g[b].i.y = q; @g[b].z = r; @g[b].c = 1; }' % (t, u, v, t, u, v), globs='g', sym='g', pre='b >= 0 && b < 2'))
                ps.append(P('struct @S { %s x[3]; %s y; %s z[2]; };\nstruct @S @g;\nvoid @f(int b, %s p, %s q, %s r) { @g.x[b] = p; @g.y = q; @g.z[b - 1] = r; }' % (t, u, v, t, u, v), globs='g', sym='g', pre='b >= 1 && b < 3'))
                ps.append(P('struct @S { %s x; %s y; %s z; };\nlong @f(%s a, %s b, %s c) { char k = 7; struct @S s[2]; char m = 9; s[0].x = a; s[0].y = b; s[0].z = c; s[1].x = a + 1; s[1].y = b + 1; s[1].z = c + 1; return s[0].x + s[0].y * 3 + s[0].z * 5 + s[1].x * 7 + s[1].y * 11 + s[1].z * 13 + k + m; }' % (t, u, v, t, u, v)))
        ps.append(P('struct @S { char c; %s* p; };\nstruct @S @g;\n%s @f(%s* a, int b) { @g.p = a; @g.c = 2; return @g.p[b] + *@g.p; }' % (t, t, t), globs='g', ptr='g', pre='b >= 0 && b < 4'))
        ps.append(P('struct @N { %s v; struct @N* next; };\n%s @f(%s a, %s b) { struct @N x; struct @N y; struct @N* p = &x; x.v = a; x.next = &y; y.v = b; y.next = p; return x.next->v - y.next->v + p->next->next->v; }' % (t, t, t, t)))
        ps.append(P('struct @N { %s v; struct @N* next; };\n%s @f(%s* a) { struct @N n[4]; int i; for (i = 0; i < 4; i++) { n[i].v = a[i]; n[i].next = &n[(i + 1) %% 4]; } struct @N* p = n; %s r = 0; for (i = 0; i < 6; i++) { r = r * 3 + p->v; p = p->next; } return r; }' % (t, t, t, t)))
        for s in ['p->v++', '++p->v', 'p->v--', '--p->v', '-p->v', '~p->v', 'p->v = b', 'p->v += b', 'p->v -= b', '(*p).v *= b', 'p->v++ - b', '(p + 0)->v', 'p[0].v + b', '(&p[1])[0 - 1].v'.replace('[0 - 1]', '[0]') , '(p++)->v', '(++p)->v', 'p++->v', 'sizeof p->v', 'sizeof *p']:
            ps.append(P('struct @S { char c; %s v; };\nstruct @S @g[2];\n%s @f(%s b) { struct @S* p = @g; return %s; }' % (t, t, t, s), globs='g', sym='g'))
        ps.append(P('struct @S { %s v; char c; };\nvoid @h(struct @S* s, %s x) { s->v = x; s->c = 4; }\n%s @f(%s a) { struct @S s; @h(&s, a); return s.v + s.c; }' % (t, t, t, t)))
        ps.append(P('struct @S { %s v; char c; };\nstruct @S @g[2];\nstruct @S* @h(int i) { return @g + i; }\nvoid @f(int b, %s c) { @h(b)->v = c; @h(1)->c = 3; (*@h(0)).c = @h(b)->c; }' % (t, t), globs='g', sym='g', pre='b >= 0 && b < 2'))
    # anonymous structures, typedefs of structures
    ps.append(P('typedef struct { char x; long y; } @T;\n@T @g;\nvoid @f(char a, long b) { @g.x = a; @g.y = b; }', globs='g', sym='g'))
    ps.append(P('typedef struct @S { char x; int y; } @T;\n@T @g;\nvoid @f(char a, int b) { struct @S* p = &@g; p->x = a; @T* q = p; q->y = b; }', globs='g', sym='g'))
    ps.append(P('struct @S { struct { char x; int y; } in; char z; };\nstruct @S @g;\nvoid @f(char a, int b) { @g.in.x = a; @g.in.y = b; @g.z = a; }', globs='g', sym='g'))
    ps.append(P('struct { int a; char b; } @g;\nvoid @f(int a, char b) { @g.a = a; @g.b = b; }', globs='g', sym='g'))
    ps.append(P('struct @S { int (*fn)(int, int); char c; };\nint @add(int x, int y) { return x + y; }\nint @f(int a, int b) { struct @S s; s.fn = @add; s.c = 3; return s.fn(a, b) + (*s.fn)(b, s.c); }'))
    ps.append(P('struct @S { char c; char d; char e; };\nstruct @S @g[3];\nvoid @f(int a, char b) { @g[a].e = b; }', globs='g', sym='g', pre='a >= 0 && a < 3'))
    ps.append(P('struct @A { char c; struct @B { long x; char y; } b; int z; };\nstruct @B @g;\nint @f(void) { return sizeof(struct @A) * 100 + sizeof(struct @B); }', globs='g', sym='g'))
    return ps


def fam_sizeof(tier):
    ps = []
    for t in T + ['long int', 'unsigned int', 'unsigned long int', 'long long int', 'unsigned long long int']:
        for d in ['%s', '%s*', '%s[5]', '%s[2][3]', '%s*[3]', '%s(*)[3]', '%s**', '%s(*)(int)']:
            ps.append(P('int @f(void) { return sizeof(%s); }' % (d % t), tag=None or 'sizeof type ' + d % t))
        ps.append(P('int @f(void) { %s x; return sizeof x; }' % t))
        ps.append(P('int @f(void) { %s x[7]; return sizeof x; }' % t))
        ps.append(P('int @f(void) { %s x[7]; return sizeof x / sizeof x[0]; }' % t))
        ps.append(P('int @f(void) { %s* x; return sizeof x + sizeof *x * 100; }' % t))
        ps.append(P('int @f(void) { %s x[2][3]; return sizeof x[0] + sizeof x[0][0] * 100; }' % t))
        ps.append(P('%s @g[3];\nint @f(void) { return sizeof @g; }' % t, globs='g'))
        ps.append(P('int @f(void) { typedef %s X[4]; X y; return sizeof y + sizeof(X); }' % t))
    for e in ['1', '1l', '1ul', "'a'", '"abc"', '""', '1 + 1', 'c', 'c + c', '-c', '~c', '!c', 'c < c', 'c << l', 'l << c', 'c ? c : l', 'c ? c : c', '(char)l', 'c = l', 'c++', 'l + c', 'u + c', '&c', 'p - p', 'p + 1', '*p', 'p[0]', 'v', 'v + 0', '&v', '*v', 'v[1]', 'g(1)', 'sizeof c'.replace('sizeof c', 'c'), '1 == 1', 'c && l', '(c)', '(long)c + 1', '1u', '1ll', '0x7f', '010']:
        ps.append(P('char @g(int x) { return x; }\nint @f(char c, long l, unsigned u) { int v[6]; int* p = v; return sizeof(%s); }' % e.replace('g(1)', '@g(1)')))
        ps.append(P('char @g(int x) { return x; }\nint @f(char c, long l, unsigned u) { int v[6]; int* p = v; int r = sizeof (%s); return r + c; }' % e.replace('g(1)', '@g(1)')))
    return ps


# ---------------------------------------------------------------- layout with symbolic array lengths, large objects
def _up(x, a):
    return x if a == 1 else '((%s + %d) / %d * %d)' % (x, a - 1, a, a)


def _layout(ms):
    """ms: [(size expression, alignment)] -> (offsets, size, alignment)"""
    off, offs, al = '0L', [], 1
    for sz, a in ms:
        off = _up(off, a)
        offs.append(off)
        off = '(%s + %s)' % (off, sz)
        al = max(al, a)
    return offs, _up(off, al), al


def fam_layout(tier):
    ps = []
    SZ = {'char': 1, 'int': 4, 'long': 8}
    TT = ['char', 'int', 'long']
    lit = {0: '#K0:3:i#', 1: '#K1:2:i#'}
    kx = {0: '(long)@KK0', 1: '(long)@KK1'}
    lp = '@KK0 > 0'
    lp2 = '@KK0 > 0 && @KK1 > 0'
    D = 'struct @S { char z[8]; };\n'
    SMALL = 'b > -1000 && b < 1000'  # offsets beyond 2 GiB are outside: indices of type int are scaled in 32 bits

    def size(src, e, f, l):
        ps.append(P(src + 'int @f(void) { return %s; }' % e, ref='int @f(void) { return (int)(%s); }' % f, lpre=l))

    def offset(src, t, m, f, l):
        ps.append(P(src + 'long @f(struct @S* a) { %s* q = a->%s; return (long)q - (long)a; }' % (t, m), ref=D + 'long @f(struct @S* a) { return %s; }' % f, lpre=l))

    for t in T:
        w = WIDTH[t] // 8
        for d, f, l in [('x[%s]' % lit[0], '%s * %d' % (kx[0], w), lp), ('x[%s][%s]' % (lit[0], lit[1]), '%s * %s * %d' % (kx[0], kx[1], w), lp2), ('x[3][%s]' % lit[0], '%s * %d' % (kx[0], 3 * w), lp), ('(*x)[%s]' % lit[0], '8', lp)]:
            ps.append(P('int @f(void) { return sizeof(%s %s); }' % (t, d.replace('x', '')), ref='int @f(void) { return (int)(%s); }' % f, lpre=l))
            ps.append(P('%s @h(%s %s) { return 1; }\nint @f(void) { return 1; }' % ('int', t, d) if '(*' not in d else 'int @f(void) { %s %s; return sizeof x; }' % (t, d), ref='int @f(void) { return %s; }' % ('8' if '(*' in d else '1'), lpre=l))
        # scaling of pointers to arrays
        ps.append(P('long @f(%s* a, int b) { %s (*p)[%s] = (%s (*)[%s])a; return (long)(p + b) - (long)p; }' % (t, t, lit[0], t, '#K0:3:i#'), ref='long @f(%s* a, int b) { return (long)b * %s * %d; }' % (t, kx[0], w), lpre=lp) if False else
                  P('struct @S { %s x[%s]; };\nlong @f(struct @S* a, int b) { return (long)(a + b) - (long)a; }' % (t, lit[0]), ref=D + 'long @f(struct @S* a, int b) { return (long)b * %s * %d; }' % (kx[0], w), lpre=lp, pre=SMALL))
        ps.append(P('struct @S { %s x[%s]; };\nlong @f(struct @S* a, int b) { struct @S* p = a + b; p++; return (long)p - (long)a; }' % (t, lit[0]), ref=D + 'long @f(struct @S* a, int b) { return ((long)b + 1) * %s * %d; }' % (kx[0], w), lpre=lp, pre='b < 100 && b > -100'))
        ps.append(P('struct @S { %s x[%s]; };\nlong @f(struct @S* a, int b) { struct @S* p = a - b; p -= 2; --p; return (long)p - (long)a; }' % (t, lit[0]), ref=D + 'long @f(struct @S* a, int b) { return -((long)b + 3) * %s * %d; }' % (kx[0], w), lpre=lp, pre='b < 100 && b > -100'))
        ps.append(P('struct @S { char c; %s x[%s]; };\nlong @f(struct @S* a, int b) { return (long)&a[b] - (long)a; }' % (t, lit[0]), ref=D + 'long @f(struct @S* a, int b) { return (long)b * %s; }' % _layout([('1', 1), ('%s * %d' % (kx[0], w), w)])[1], lpre=lp, pre=SMALL))
    for t1 in TT:
        for t2 in TT:
            for t3 in TT:
                for pat in ('ass', 'sas', 'ssa', 'asa', 'aas', 'saa'):
                    ms, decl, arrs, nlit = [], '', [], 0
                    for i, (t, k) in enumerate(zip((t1, t2, t3), pat)):
                        if k == 'a':
                            decl += '%s m%d[%s]; ' % (t, i, lit[nlit])
                            ms.append(('%s * %d' % (kx[nlit], SZ[t]), SZ[t]))
                            arrs.append((t, i))
                            nlit += 1
                        else:
                            decl += '%s m%d; ' % (t, i)
                            ms.append((str(SZ[t]), SZ[t]))
                    l = lp if nlit == 1 else lp2
                    offs, sz, al = _layout(ms)
                    src = 'struct @S { %s};\n' % decl
                    size(src, 'sizeof(struct @S)', sz, l)
                    ps.append(P(src + 'long @f(struct @S* a, int b) { return (long)(a + b) - (long)a; }', ref=D + 'long @f(struct @S* a, int b) { return (long)b * (%s); }' % sz, lpre=l, pre=SMALL))
                    for t, i in arrs:
                        offset(src, t, 'm%d' % i, offs[i], l)
                    # nested in another structure, behind a char
                    o2, s2, a2 = _layout([('1', 1), (sz, al), ('1', 1)])
                    n = 'struct @I { %s};\nstruct @S { char c; struct @I in; char d; };\n' % decl
                    if tier != 'quick' or (TT.index(t1) + TT.index(t2) + TT.index(t3)) % 2 == 0:
                        size(n, 'sizeof(struct @S)', s2, l)
                        offset(n, arrs[0][0], 'in.m%d' % arrs[0][1], '%s + %s' % (o2[1], offs[arrs[0][1]]), l)
                        o3, s3, a3 = _layout([('4', 4), ('%s * 3' % sz, al), ('1', 1)])
                        size('struct @I { %s};\nstruct @S { int c; struct @I in[3]; char d; };\n' % decl, 'sizeof(struct @S)', s3, l)
    return ps


def fam_large(tier):
    """objects of many sizes: frames, data sections and indices beyond small constants"""
    ps = []
    NS = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300] if tier == 'quick' else list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000]
    for t in (['char', 'int', 'long'] if tier == 'quick' else T):
        for n in NS:
            pre = 'b == 0 || b == 1 || b == %d || b == %d' % (n - 1, n // 2)
            ps.append(P('%s @f(%s a, int b) { long p = 77; %s v[%d]; char q = 5; v[b] = a; v[0] = v[b]; return v[b] + p * 3 + q; }' % (t, t, t, n), pre=pre))
            ps.append(P('%s @k = 3;\n%s @g[%d];\n%s @h = 4;\nvoid @f(%s a, int b) { @g[b] = a; }' % (t, t, n, t, t), pre=pre, globs='k g h'))
            ps.append(P('struct @S { char c; %s v[%d]; char d; };\nstruct @S @g[2];\nvoid @f(%s a, int b, int c) { @g[c].v[b] = a; @g[c].d = 1; @g[c].c = 2; }' % (t, n, t), pre='(%s) && (c == 0 || c == 1)' % pre, globs='g'))
            ps.append(P('struct @S { char c; %s v[%d]; char d; };\nlong @f(%s a, int b) { char x = 9; struct @S s[2]; int y = 8; s[1].v[b] = a; s[0].d = 1; s[1].c = 2; s[1].d = 3; s[0].c = 4; s[0].v[%d] = 5; return s[1].v[b] + s[0].d * 3 + s[1].c * 5 + s[1].d * 7 + s[0].c * 11 + x * 13 + y * 17; }' % (t, n, t, n - 1), pre=pre))
            ps.append(P('struct @I { %s v[%d]; char e; };\nstruct @S { int c; struct @I i; long d; };\nint @f(void) { return sizeof(struct @S) + sizeof(struct @I) * 3; }' % (t, n)))
    # many members, many locals, many parameters of mixed types
    order = ['char', 'long', 'int', 'char', 'unsigned', 'char', 'long long', 'char', 'char', 'int', 'unsigned long', 'char', 'int', 'char', 'long', 'char', 'unsigned long long', 'int', 'char', 'char']
    for n in (9, 12, 16, 17, 20):
        ds = [(order[i], 'm%d' % i) for i in range(n)]
        st = 'struct @S { %s };\n' % ' '.join('%s %s;' % d for d in ds)
        ps.append(P(st + 'struct @S @g;\nvoid @f(long a) { %s }' % ' '.join('@g.%s = a + %d;' % (m, i * 37) for i, (_, m) in enumerate(ds)), globs='g'))
        ps.append(P(st + 'long @f(long a) { struct @S s; %s return %s; }' % (' '.join('s.%s = a + %d;' % (m, i * 37) for i, (_, m) in enumerate(ds)), ' + '.join('s.%s' % m for _, m in ds))))
        ps.append(P('long @f(long a) { %s return %s; }' % (' '.join('%s %s = a + %d;' % (t, m, i * 41) for i, (t, m) in enumerate(ds)), ' + '.join('%s * %d' % (m, i + 1) for i, (_, m) in enumerate(ds)))))
        ps.append(P('%slong @f(long a) { %s return %s; }' % (''.join('%s @%s;\n' % d for d in ds), ' '.join('@%s = a + %d;' % (m, i * 41) for i, (t, m) in enumerate(ds)), ' + '.join('@%s * %d' % (m, i + 1) for i, (_, m) in enumerate(ds))), globs=' '.join(m for _, m in ds)))
    return ps


# ---------------------------------------------------------------- C06: initializers
def fam_init(tier):
    ps = []

    def glob(decl, names='g'):
        ref, setup = None, ''
        m = re.match(r'([\w ]+?) @g(\[\d+\])? = (.*);$', decl)
        if '#' in decl:  # literals of the reference are not compile-time constants: assign before the images are compared
            lit = lambda s: re.sub(r'#(\w+):\d+:i#', r'((int)@K\1)', s)
            ref = '%s @g%s;\nint @f(void) { return 0; }' % (m.group(1), m.group(2) or '')
            vals = m.group(3).strip('{} ').split(',')
            setup = ' '.join('@g%s = %s;' % ('[%d]' % i if m.group(2) else '', lit(v)) for i, v in enumerate(vals))
        ps.append(P(decl + '\nint @f(void) { return 0; }', globs=names, ref=ref, setup=setup))

    def loc(ty_decl, init, dump, sig='', pre='1', pro=''):
        """local object initialized, then dumped into a global of the same type through `dump`"""
        ps.append(P('%svoid @f(%s) { %s = %s; %s }' % (pro, sig or 'void', ty_decl, init, dump), pre=pre, globs='g', sym='g'))

    LITS = ['0', '1', '127', '128', '255', '256', '65535', '2147483647', "'a'", "'\\n'", "'\\0'", "'\\x41'", "'\\377'", '0x7f', '0xff', '0x7fffffff', '010', '0177', '1u', '1l', '1ul', '1ll', '1ull', '4294967295u', '9223372036854775807l', '18446744073709551615ul', '0xffffffffu', '0x123456789abcl', '0xffffffffffffffffull']
    for t in T:
        for l in LITS:
            if t == 'char' and l in ('9223372036854775807l', '18446744073709551615ul', '0x123456789abcl', '0xffffffffffffffffull', '0x7fffffff', '2147483647', '4294967295u', '0xffffffffu', '65535', '256'):
                pass
            glob('%s @g = %s;' % (t, l))
            glob('%s @g[3] = { %s, 5 };' % (t, l))
            ps.append(P('%s @f(void) { %s x = %s; return x; }' % (t, t, l)))
            ps.append(P('%s @f(void) { %s x[3] = { 7, %s }; return x[1] + x[2] + x[0]; }' % (t, t, l)))
        glob('%s @g = #K0:9:i#;' % t)
        glob('%s @g = (%s)#K0:9:i#;' % (t, t))
        glob('long @g = (%s)#K0:9:i#;' % t)
        glob('%s @g = (char)#K0:9:i#;' % t)
        glob('%s @g = (long)(char)(int)#K0:9:i#;' % t)
        glob('%s @g = { #K0:3:i# };' % t)
        glob('%s @g[4] = { #K0:3:i#, #K1:9:i# };' % t)
        glob('%s @g;\n%s @h = 3;\n%s @k;' % (t, t, t), 'g h k')
        # arrays, nested and partial, braces elided
        for init in ['{ 1, 2, 3, 4, 5, 6 }', '{ { 1, 2, 3 }, { 4, 5, 6 } }', '{ { 1 }, { 4 } }', '{ 1, 2 }', '{ { 1, 2 } }', '{ 1, 2, 3, 4 }', '{ { 1, 2, 3 }, 4 }', '{ { 1, 2, 3 }, 4, 5 }', '{ 1 }', '{ 1, 2, 3, { 4 } }', '{ 1, 2, 3, 4, 5, 6, }', '{ { 1, }, }']:
            glob('%s @g[2][3] = %s;' % (t, init))
            ps.append(P('%s @g[2][3];\nvoid @f(void) { char p = 1; %s v[2][3] = %s; char q = 2; int i; int j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) @g[i][j] = v[i][j]; @g[0][0] += p - q + 1; }' % (t, t, init), globs='g', sym='g'))
        for init in ['{ 1, 2, 3 }', '{ 1 }', '{ 1, 2 }', '{ { 1 }, 2 }']:
            glob('%s @g[3] = %s;' % (t, init))
            glob('%s @g[5] = %s;' % (t, init))
            ps.append(P('%s @g[5];\nvoid @f(void) { %s v[5] = %s; int i; for (i = 0; i < 5; i++) @g[i] = v[i]; }' % (t, t, init), globs='g', sym='g'))
        ps.append(P('%s @g[3];\nvoid @f(%s a, %s b) { %s v[3] = { a, b, a + b }; int i; for (i = 0; i < 3; i++) @g[i] = v[i]; }' % (t, t, t, t), globs='g', sym='g'))
        ps.append(P('%s @g[4];\nvoid @f(%s a, int b) { %s v[4] = { b, a }; int i; for (i = 0; i < 4; i++) @g[i] = v[i]; }' % (t, t, t), globs='g', sym='g'))
        ps.append(P('%s @f(%s a, %s b) { %s x = a; %s y = x + b; %s z = { y - a }; return z; }' % (t, t, t, t, t, t)))
        ps.append(P('%s @f(%s a, %s b) { %s x = a, y = b, z = x * y; return z - y; }' % (t, t, t, t)))
        # structures
        for u in (['char', 'int', 'long'] if tier == 'quick' else T):
            st = 'struct @S { %s x; %s y; };\n' % (t, u)
            for init in ['{ 1, 2 }', '{ 1 }', '{ { 1 }, 2 }', '{ 1, { 2 } }']:
                glob(st + 'struct @S @g = %s;' % init)
                ps.append(P(st + 'struct @S @g;\nvoid @f(void) { char p = 5; struct @S s = %s; char q = 6; @g.x = s.x; @g.y = s.y; @g.x += p - q + 1; }' % init, globs='g', sym='g'))
            for init in ['{ 1, 2, 3, 4 }', '{ { 1, 2 }, { 3, 4 } }', '{ { 1, 2 } }', '{ 1, 2, 3 }', '{ { 1 }, { 3 } }', '{ { 1 }, 3, 4 }']:
                glob(st + 'struct @S @g[2] = %s;' % init)
                glob(st + 'struct @S @g[3] = %s;' % init)
                ps.append(P(st + 'struct @S @g[3];\nvoid @f(void) { char p = 5; struct @S s[3] = %s; char q = 6; int i; for (i = 0; i < 3; i++) { @g[i].x = s[i].x; @g[i].y = s[i].y; } @g[0].x += p - q + 1; }' % init, globs='g', sym='g'))
                ps.append(P('struct @S { char c; %s x[2]; %s y; };\nstruct @S @g = %s;\nint @f(void) { return 0; }' % (t, u, init.replace('{ { 1, 2 }, { 3, 4 } }', '{ 9, { 3, 4 }, 5 }').replace('{ { 1 }, { 3 } }', '{ 1, { 2 }, 3 }').replace('{ { 1 }, 3, 4 }', '{ 1, 2, 3, 4 }').replace('{ { 1, 2 } }', '{ 1, { 2, 3 } }')), globs='g'))
                ps.append(P('struct @I { %s x; %s y; };\nstruct @S { char c; struct @I i; %s z; };\nstruct @S @g[2] = { %s };\nint @f(void) { return 0; }' % (t, u, t, init.replace('{ 1, 2, 3, 4 }', '{ 1, { 2, 3 }, 4 }, { 5, 6, 7, 8 }').replace('{ { 1, 2 }, { 3, 4 } }', '{ 1, { 2 }, 3 }').replace('{ { 1, 2 } }', '1, 2, 3, 4, 5').replace('{ 1, 2, 3 }', '{ 1, 2, 3 }, 4, 5').replace('{ { 1 }, { 3 } }', '1, { 2, 3 }, 4, 5, { 6 }, 7').replace('{ { 1 }, 3, 4 }', '{ 1 }, { 5, 6 }')), globs='g'))
                ps.append(P('struct @I { %s x; %s y; };\nstruct @S { char c; struct @I i[2]; %s z; };\nstruct @S @g;\nvoid @f(%s a) { char p = 3; struct @S s = { 1, { { a, 2 }, { 3 } }, 4 }; char q = 4; @g.c = s.c + p - q; int k; for (k = 0; k < 2; k++) { @g.i[k].x = s.i[k].x; @g.i[k].y = s.i[k].y; } @g.z = s.z; }' % (t, u, t, t), globs='g', sym='g'))
            ps.append(P(st + 'long @f(%s a, %s b) { struct @S s = { a, b }; struct @S r = { b }; return s.x + s.y * 3 + r.x * 5 + r.y * 7; }' % (t, u)))
    # strings
    for s, n in [('""', 1), ('"a"', 2), ('"abc"', 4), ('"abc"', 3), ('"abc"', 6), ('"a\\0b"', 4), ('"\\n\\t\\\\\\""', 5), ('"\\x41\\101z"', 4), ('"\\377\\x80"', 3), ('"\\0"', 2), ('"%d\'?"', 8), ('{ "abc" }', 5), ('"0123456789abcdef"', 17), ('"\\0001"', 3), ('"\\xe3\\x81\\x82"', 8), ('"a\\0"', 8)]:
        glob('char @g[%d] = %s;' % (n, s))
        ps.append(P('char @g[%d];\nvoid @f(void) { char p = 1; char v[%d] = %s; char q = 2; int i; for (i = 0; i < %d; i++) @g[i] = v[i]; @g[0] += p - q + 1; }' % (n, n, s, n), globs='g', sym='g'))
        if '{' not in s and n != 3:
            ps.append(P('char @f(int i) { char* s = %s; return s[i]; }' % s, pre='i >= 0 && i < (int)sizeof(%s)' % s))
            ps.append(P('char @f(int i) { return %s[i]; }' % s, pre='i >= 0 && i < (int)sizeof(%s)' % s))
            ps.append(P('int @f(void) { return sizeof %s; }' % s))
    for init in ['{ { 97, 98 }, { 99 } }', "{ { 'a', 'b', 'c' }, { 'd' } }", "{ 'a', 'b', 'c', 'd' }"]:
        glob('char @g[2][3] = %s;' % init)
    for init in ['{ "ab", "cd" }', '{ "abc" }', '{ { "ab" }, { "c" } }']:
        glob('char @g[2][3] = %s;' % init)
        ps.append(P('char @g[6];\nvoid @f(void) { char v[2][3] = %s; int i; for (i = 0; i < 6; i++) @g[i] = v[i / 3][i %% 3]; }' % init, globs='g', sym='g'))
        glob('struct @S { char n[3]; char m[3]; };\nstruct @S @g = %s;' % init)
        ps.append(P('struct @S { int k; char n[3]; };\nstruct @S @g;\nvoid @f(int a) { struct @S s = { a, "xy" }; @g.k = s.k; int i; for (i = 0; i < 3; i++) @g.n[i] = s.n[i]; }', globs='g', sym='g'))
    ps.append(P('char @f(int i, int j) { char* t[3] = { "ab", "cde", "" }; return t[i][j]; }', pre='i >= 0 && i < 3 && j >= 0 && j <= (i == 0 ? 2 : i == 1 ? 3 : 0)'))
    for n in range(1, 12):
        st = '"' + 'abcdefghijkl'[:n - 1] + '"'
        ps.append(P('char @g[2];\nvoid @f(void) { char p = 1; char v[%d] = %s; char q = 2; @g[0] = p; @g[1] = q; }' % (n, st), globs='g', sym='g'))
        ps.append(P('char @g[3];\nvoid @f(char a) { char p = a; char v[2][%d] = { %s, %s }; char q = 2; @g[0] = p; @g[1] = q; @g[2] = v[1][0]; }' % (n, st, st), globs='g', sym='g'))
        ps.append(P('struct @S { char n[%d]; };\nchar @g[3];\nvoid @f(char a) { char p = a; struct @S v = { %s }; char q = 2; @g[0] = p; @g[1] = q; @g[2] = v.n[0]; }' % (n, st), globs='g', sym='g'))
        ps.append(P('struct @S { char c; char n[%d]; };\nchar @g[%d];\nvoid @f(char a) { char p = a; struct @S v[3] = { { 1, %s }, { 2 }, { 3, %s } }; char q = 2; @g[0] = p; @g[1] = q; int i; for (i = 0; i < %d; i++) { @g[2 + i] = v[0].n[i]; @g[2 + i + %d] = v[1].n[i]; @g[2 + i + 2 * %d] = v[2].n[i]; } @g[2 + 3 * %d] = v[0].c; @g[3 + 3 * %d] = v[1].c; @g[4 + 3 * %d] = v[2].c; }' % (n, 5 + 3 * n, st, st, n, n, n, n, n, n), globs='g', sym='g'))
    ps.append(P('int @add(int x, int y) { return x + y; }\nint @f(int a, int b) { int (*t[2])(int, int) = { @add, @add }; return t[1](a, b); }'))
    ps.append(P('enum @E { @A, @B = 7, @C };\nenum @E @g = 7;\nint @f(void) { enum @E e = @C; int v[3] = { @A, @B, @C }; return e * 100 + v[1] + v[2]; }', globs='g'))
    ps.append(P('enum { @A = 3 };\nint @g = @A;\nint @h[2] = { @A, 1 };\nint @f(void) { return 0; }', globs='g h'))
    ps.append(P('int @f(int a) { int x = a; { int x = x + 0; } return x; }'.replace('int x = x + 0;', 'int y = x; x = y + 1;')))
    ps.append(P('int @f(int a) { int v[2] = { a, 1 }; int* p = v; int* q[2] = { p, p + 1 }; return *q[0] * 10 + *q[1]; }'))
    return ps
