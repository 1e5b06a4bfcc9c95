"""C09 scopes and storage, C12 grammar (precedence, associativity, declarators), C14 constants in declarations, C16 side effects."""
from .prog import P

# ---------------------------------------------------------------- C12: precedence and associativity
BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||']
# small operands: every operator is defined, the two groupings still differ for some of them
SM = ' && '.join('%s >= 1 && %s <= 6' % (v, v) for v in 'abcd')


def fam_prec(tier):
    ps = []
    for i, o in enumerate(BIN):
        for j, q in enumerate(BIN):
            pre = SM
            ps.append(P('int @f(int a, int b, int c) { return a %s b %s c; }' % (o, q), pre=prec_pre(o, q)))
            if 1:
                for r in (BIN if tier != 'quick' else BIN[(i * 5 + j) % 2::2]):
                    ps.append(P('int @f(int a, int b, int c, int d) { return a %s b %s c %s d; }' % (o, q, r), pre=prec_pre(o, q, r)))
        for u in '-~!':
            ps.append(P('int @f(int a, int b) { return %sa %s b; }' % (u, o), pre=un_pre(u, 'a', o)))
            if not (u in '-+' and o == u):
                ps.append(P('int @f(int a, int b) { return a %s %sb; }' % (o, u), pre=un_pre2(u, 'b', o)))
        ps.append(P('int @f(int a, int b, int c, int d) { return a %s b ? c : d; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b, int c, int d) { return a ? b : c %s d; }' % o, pre=prec_pre(o).replace('a', 'z').replace('b', 'd').replace('z', 'c')))
        ps.append(P('int @f(int a, int b, int c, int d) { return a ? b %s c : d; }' % o, pre=prec_pre(o).replace('b', 'c').replace('a', 'b')))
        ps.append(P('int @f(int a, int b, int c) { int x; x = a %s b; return x + c; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b, int c) { a = c %s b; return a; }' % o, pre=prec_pre(o).replace('a', 'c')))
        ps.append(P('int @f(int a, int b) { return (char)a %s b; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b) { return a %s (char)b; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int* p, int b) { return *p %s b; }' % o, pre='p[0] >= 1 && p[0] <= 6 && b >= 1 && b <= 6'))
        ps.append(P('int @f(int* p, int b) { return b %s *p; }' % o, pre='p[0] >= 1 && p[0] <= 6 && b >= 1 && b <= 6'))
        ps.append(P('int @f(int* p, int b) { return b %s p[1]; }' % o, pre='p[1] >= 1 && p[1] <= 6 && b >= 1 && b <= 6'))
        ps.append(P('int @f(int a, int b) { return a++ %s b; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b) { return a %s b++; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b) { return ++a %s b; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b) { return a-- %s b; }' % o, pre=prec_pre(o)))
        ps.append(P('int @f(int a, int b) { return sizeof(long) %s b; }' % o, pre='b >= 1 && b <= 6'))
        ps.append(P('int @f(int a, int b) { return sizeof a %s b; }' % o, pre='b >= 1 && b <= 6'))
        ps.append(P('struct @S { int m; int n; };\nint @f(int a, int b) { struct @S s; s.m = a; s.n = b; struct @S* p = &s; return s.m %s p->n; }' % o, pre=prec_pre(o)))
        ps.append(P('struct @S { int m; int n; };\nint @f(int a, int b) { struct @S s; s.m = a; s.n = b; struct @S* p = &s; return -p->m %s -s.n; }' % o, pre=un_pre2('-', 'b', o) + ' && ' + un_pre('-', 'a', o) + ('&& 0' if o in ('<<', '>>') else '')) if o not in ('<<', '>>') else P('int @f(int a, int b) { return (a) %s (b); }' % o, pre=prec_pre(o)))
        for q in ('=', '+=', '-=', '*=', '&=', '|=', '^='):
            ps.append(P('int @f(int a, int b, int c) { a %s b %s c; return a; }' % (q, o), pre=prec_pre(o, None).replace('a', 'c') + ' && a >= 0 && a <= 100'))
    # assignment and ?: associate to the right
    for q in ('=', '+=', '-=', '*='):
        for r in ('=', '+=', '-=', '*='):
            ps.append(P('int @f(int a, int b, int c) { a %s b %s c; return a * 1000 + b * 30 + c; }' % (q, r), pre='a >= 0 && a <= 20 && b >= 0 && b <= 20 && c >= 0 && c <= 20'))
    ps.append(P('int @f(int a, int b, int c, int d) { return a ? b ? c : d : b + 7; }'))
    ps.append(P('int @f(int a, int b, int c, int d) { return a ? b : c ? d : b - 7; }'))
    ps.append(P('int @f(int a, int b, int c, int d) { a = b ? c : d; return a; }'))
    ps.append(P('int @f(int a, int b, int c, int d) { return a ? b = c : d; }'))
    ps.append(P('int @f(int a, int b, int c) { if (a) if (b) return 1; else return 2; return c; }'))
    ps.append(P('int @f(int a, int b, int c) { if (a) { if (b) return 1; } else return 2; return c; }'))
    ps.append(P('int @f(int a, int b, int c) { if (a) while (b) { return 3; } else return 2; return c; }'))
    ps.append(P('int @f(int a, int b, int c) { if (a) for (; b; ) if (c) return 3; else return 4; else return 2; return 5; }'))
    for e in ('*&a', '-*&a', '!*&a', '- -a', '!-a', '~-a', '-~a', '!~a', '~!a', '!!a', '+-a', '-+a', '-(-a)', '(char)-a', '-(char)a', '(char)~a', '!(char)a', '(long)(char)a', 'sizeof(char) + a', 'sizeof(a) * a', 'sizeof -a', 'sizeof(int) - 1 + a', '(a)', '((a))', '(((a)))'):
        ps.append(P('int @f(int a) { return %s; }' % e, pre='a > -1000 && a < 1000'))
    for e in ('*p++', '(*p)++', '*++p', '++*p', '--*p', '-*p++', '*(p + 1)', '*p + 1', '*p++ + *p', '-p[1]', '&p[1] - p', '*&p[1]', '!p[2]', '*p[1 + 1 - 2 + (0)]' if 0 else 'p[1 + 1]', '(*p)', 'p[*p & 3]', '&*p - p', '(p + 1)[1]', '1[p]' if 0 else 'p[0]', '++p[1]', 'p[1]++', '--p[1]', '~p[1]--'):
        ps.append(P('int @f(int* p) { %s; return p[0] + 3 * p[1]; }' % e if 0 else 'int @f(int* p) { int r = %s; return r * 5 + *p; }' % e, pre=' && '.join('p[%d] > -1000 && p[%d] < 1000' % (i, i) for i in range(4)), buf=4) if '*p++ + *p' != e else P('int @f(int* p) { int r = *p++; return r + *p; }'))
    for e in ('s.a.b', 'p->a.b', '(*p).a.b', 's.q->b', 'p->q->b', 's.v[1].b', 'p->v[1].b', 'p->v[i].b', '(*p).v[i & 1].b', 'p->w[1][i]', '-p->a.b', '!s.a.b', '++p->a.b', 'p->a.b++', 's.a.b--', '*p->r', '-*p->r', '*s.r + 1', 'p->r[1]', '&p->r[1] - p->r', '(char)s.a.b', 'sizeof s.a', 'sizeof p->v', 'sizeof(s.w)', 'sizeof p->w[0]', '(s.a).b', '(&s)->a.b', '(*&s).a.b' if 0 else 's.a.b'):
        ps.append(P('struct @I { char c; int b; };\nstruct @S { struct @I a; struct @I v[2]; int w[2][2]; struct @I* q; int* r; };\nint @f(int x, int y, int i) { struct @I t; t.b = x + 9; int z[2]; z[0] = y; z[1] = x; struct @S s; s.a.b = x; s.v[0].b = y; s.v[1].b = x - 1; s.w[1][0] = y - 1; s.w[1][1] = x - 2; s.q = &t; s.r = z; struct @S* p = &s; int k = %s; return k * 3 + s.a.b; }' % e, pre='i >= 0 && i <= 1 && x > -1000 && x < 1000 && y > -1000 && y < 1000'))
    # declarators
    for d, body, pre in [('int* v[2]', 'v[0] = &a; v[1] = &b; return *v[c];', 'c >= 0 && c <= 1'), ('int (*v)[2]', 'int w[2][2]; w[0][0] = a; w[0][1] = b; w[1][0] = c; w[1][1] = 4; v = w; return v[1][0] * 3 + (*v)[1];', '1'),
                         ('int** v', 'int* w = &a; v = &w; **v = b; return a + c;', '1'), ('int v[2][3]', 'v[1][2] = a; v[0][2] = b; v[1][0] = c; return sizeof v + v[1][2] * 2 + v[1][0];', '1'),
                         ('int (*v[2])(int)', 'v[0] = ei_i; v[1] = ei_i_2; return v[c](a) + (*v[1 - c])(b);', 'c >= 0 && c <= 1'), ('int (*v)(int)', 'v = a ? ei_i : ei_i_2; return v(b) - (*v)(c);', '1'), ('int *v', 'v = &a; return *v - b - c;', '1'), ('int (v)', 'v = a; return v - b - c;', '1'), ('int (*(v))', 'v = &a; return *v - b - c;', '1'),
                         ('int *v, w, *x, y[2]', 'w = a; v = &w; x = v; y[1] = *x; return y[1] + b + c;', '1'), ('int v = a, w = v + b, x = w * 2', 'return x - c;', '1'), ('long int v', 'v = a; return v + b + c;', '1'), ('int long v', 'v = a; return v + b + c;', '1'), ('long long int v', 'v = a; return v + b + c;', '1'), ('unsigned v', 'v = a; return v > b;', '1'), ('long unsigned v', 'v = a; return v > b;', '1'), ('unsigned long long int v', 'v = a; return v > b;', '1')]:
        ps.append(P('int ei_i(int x);\nint ei_i_2(int x);\nint @f(int a, int b, int c) { %s; %s }' % (d, body), pre='a > -1000 && a < 1000 && b > -1000 && b < 1000 && c > -1000 && c < 1000 && ' + pre))
    for decl, use in [('int @g(int a), @h(int a);', '@g(a) + @h(b)'), ('int (*@g(int a))(int);', '@g(a)(b)'), ('int* @g(int* a);', '*@g(&a) + b'), ('int @g(int (*a)(int), int b);', '@g(ei_i, a) + b'), ('int @g(int* a, int b);', '@g(&a, b)')]:
        defs = {'@h': ''}
        d = {'int @g(int a), @h(int a);': 'int @g(int a) { return a * 2; }\nint @h(int a) { return a - 5; }', 'int (*@g(int a))(int);': 'int (*@g(int a))(int) { return a ? ei_i : ei_i_2; }', 'int* @g(int* a);': 'int* @g(int* a) { *a = *a + 1; return a; }',
             'int @g(int (*a)(int), int b);': 'int @g(int (*a)(int), int b) { return a(b) + 1; }', 'int @g(int* a, int b);': 'int @g(int* a, int b) { *a = b; return b + 3; }'}[decl]
        ps.append(P('int ei_i(int x);\nint ei_i_2(int x);\n%s\nint @f(int a, int b) { return %s; }' % (d, use), pre='a > -1000 && a < 1000 && b > -1000 && b < 1000'))
    return ps


def rng(v, lo, hi):
    return '%s >= %d && %s <= %d' % (v, lo, v, hi)


def prec_pre(*ops):
    """operands for which a o b q c is defined under the right grouping: small positive ones, divisors and shift counts kept in range by
    excluding the values for which the C expression itself is undefined (ub: checked by evaluating the same text with guards)"""
    ops = [o for o in ops if o]
    names = 'abcd'[:len(ops) + 1]
    pre = ' && '.join(rng(v, 1, 6) for v in names)
    e, g = guard(list(names), ops)
    return pre + ''.join(' && ' + x for x in g)


LEVEL = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}


def guard(names, ops):
    """-> (fully parenthesised text by C's rules, conditions under which it is defined)"""
    if not ops:
        return names[0], []
    k = max(i for i in range(len(ops)) if LEVEL[ops[i]] == min(LEVEL[o] for o in ops))
    l, g1 = guard(names[:k + 1], ops[:k])
    r, g2 = guard(names[k + 1:], ops[k + 1:])
    g = g1 + g2
    if ops[k] in '/%':
        g = g + ['(%s) != 0' % r, '(%s) != -1' % r]
    if ops[k] in ('<<', '>>'):
        g = g + ['(%s) >= 0 && (%s) < 20' % (r, r)]
        if ops[k] == '<<':
            g = g + ['(%s) >= 0 && (%s) < 1000' % (l, l)]
    return '(%s) %s (%s)' % (l, ops[k], r), g


def un_pre(u, v, o):
    p = rng('a', 1, 6) + ' && ' + rng('b', 1, 6)
    return p


def un_pre2(u, v, o):
    p = rng('a', 1, 6) + ' && ' + rng('b', 2, 6)
    if o in ('<<', '>>'):
        p += ' && %sb >= 0' % u
    if o in '/%':
        p += ' && %sb != 0' % u
    return p


# ---------------------------------------------------------------- C09: scopes and storage
def fam_scope(tier):
    ps = []
    A = ps.append
    for t in ('char', 'int', 'long', 'unsigned', 'int*' if 0 else 'long long'):
        A(P('%s @x;\nint @f(int a) { %s x = a; { %s x = a + 1; x = x + 1; { %s x = 7; x = x + 1; } } return x; }'.replace('@x', '@gx') % (t, t, t, t), globs='gx'))
    A(P('int @g;\nint @f(int a) { @g = a; int r = 0; { int @g = 5; r = @g; @g = 9; } return r + @g; }', globs='g', sym='g'))
    A(P('int @g;\nint @h(int @g) { return @g + 1; }\nint @f(int a) { @g = a; return @h(a + 5) * 2 + @g; }', globs='g', sym='g'))
    A(P('int @f(int a) { int b = a; { int a = b + 1; b = a; } return a * 3 + b; }'))
    A(P('int @f(int a) { int r = 0; if (a) { int b = a + 1; r = b; } else { long b = a - 1; r = b; } int b = 4; return r + b; }'))
    A(P('int @f(int a) { int i = 100; int s = 0; for (int i = 0; i < 3; i++) { s += i * a; } return s + i; }'))
    A(P('int @f(int a) { int i = 100; int s = 0; for (int i = 0; i < 2; i++) { int i = a; s += i; } return s + i; }'))
    A(P('int @f(int a) { int s = 0; for (int i = 0; i < 2; i++) { for (int i = 0; i < 2; i++) { s += a + i; } s += i * 10; } return s; }'))
    A(P('int @f(int a) { int s = 0; int i = 0; while (i < 3) { int k = a + i; s += k; i++; } { int k = 5; s += k; } return s; }'))
    A(P('int @f(int a) { int r = 0; switch (a) { case 1: { int b = 3; r = b; break; } case 2: { long b = 4; r = b; } default: { char b = 5; r += b; } } return r; }'))
    A(P('int @f(int a) { switch (a) { case 0: { int a = 5; return a; } } return a; }'))
    A(P('enum @E { @A1, @B1 };\nint @f(int a) { enum @E { @A2 = 7, @B2 }; return a ? @B1 : @B2; }'))
    A(P('enum @E { A = 1 };\nint @f(int a) { int r = A; { enum @E2 { A = 5 }; r = r * 10 + A; } return r * 10 + A + a; }'.replace('A', '@A')))
    A(P('int @A;\nint @f(int a) { @A = a; { enum { @A = 5 }; a = a + @A; } return a + @A; }', globs='A', sym='A'))
    A(P('struct @S { int x; };\nint @f(int a) { struct @S s; s.x = a; { struct @S { char c; long x; }; struct @S t; t.x = a + 1; s.x += t.x + sizeof(struct @S); } return s.x + sizeof(struct @S); }'))
    A(P('typedef int @T;\nint @f(int a) { @T x = a; { typedef char @T; @T y = a; x += y; } return x + sizeof(@T); }', expect='maybe'))
    A(P('typedef int @T;\n@T @f(@T a) { return a + 1; }'.replace('@T @f(@T', 'int @f(int')))
    A(P('typedef int @T;\ntypedef @T* @U;\nint @f(int a) { @T x = a; @U p = &x; *p = *p + 1; return x; }'))
    A(P('typedef struct { int x; char y; } @T;\nint @f(int a) { @T s; s.x = a; s.y = 3; @T* p = &s; return p->x + p->y + sizeof(@T); }'))
    A(P('typedef struct @S @T;\nstruct @S { int x; @T* n; };\nint @f(int a) { @T s; @T t; s.x = a; s.n = &t; t.x = a + 1; t.n = &s; return s.n->n->n->x; }'))
    A(P('struct @S { int x; struct @S* n; };\nint @f(int a) { struct @S s; struct @S t; s.n = &t; t.n = &s; t.x = a; s.x = 3; return s.n->x + s.n->n->x; }'))
    A(P('struct @A; struct @B { struct @A* p; int v; }; struct @A { struct @B b; int w; };\nint @f(int a) { struct @A x; x.w = a; x.b.p = &x; x.b.v = 2; return x.b.p->w + x.b.p->b.v; }'))
    A(P('typedef int @T[3];\nint @f(int a) { @T v; v[2] = a; v[0] = 1; @T w[2]; w[1][2] = a; return v[2] + w[1][2] + sizeof(@T); }'))
    A(P('typedef int (*@T)(int);\nint ei_i(int);\nint @f(int a) { @T p = ei_i; return p(a) + (*p)(a + 1); }'))
    A(P('typedef enum { @X, @Y = 5, @Z } @T;\nint @f(int a) { @T e = @Z; if (a) e = @X; return e + @Y; }'))
    A(P('typedef int @T;\nint @f(int a) { int @T = a; return @T + 1; }', expect='maybe'))
    A(P('typedef int @T;\nint @h(int @T) { return @T + 1; }\nint @f(int a) { return @h(a); }', expect='maybe'))
    # tags: an inner tag hides the outer one, types declared with the outer one keep their layout
    TS = 'struct @S { char c; int x; };\n'
    A(P(TS + 'int @f(int a) { struct @S s; s.x = a; struct @S* p; p = &s; { enum @S { @X = 3 }; s.x += @X; return p->x; } }'))
    A(P(TS + 'int @g(struct @S* p, int a) { struct @S { long x; struct @S* y; } v[2]; v[1].x = a; v[0].y = v; return v[0].y[1].x + p->x + sizeof v; }\nint @f(int a, int b) { struct @S s; s.x = b; return @g(&s, a); }'))
    A(P(TS + 'int @f(int a) { struct @S s; s.x = a; { struct @S { char c; long x; struct @S* n; }; struct @S t; t.x = a - 1; t.n = &t; t.n->n->x++; s.x += t.n->x + sizeof(struct @S); { struct @S { char z[3]; struct @S* k; }; struct @S u; u.z[1] = a; u.k = &u; s.x += u.k->z[1] + t.n->x + sizeof(*u.k); } s.x += sizeof t + sizeof(struct @S); } return s.x + sizeof(struct @S); }'))
    A(P(TS + 'int @f(int a) { struct @S s[2]; s[1].x = a; struct @S { int x; struct @S* p; } t; t.x = 1; t.p = &t; struct @S u; u.x = 2; t.p = &u; return s[1].x + t.p->x * 5 + sizeof s; }'))
    A(P(TS + 'int @f(int a) { int r = 0; for (int i = 0; i < 2; i++) { struct @S { long v[2]; } t; t.v[1] = a + i; r += t.v[1]; } { struct @S { char v; } t; t.v = a; r += t.v; } struct @S s = { 1, 2 }; return r + s.x + s.c + sizeof s; }'))
    A(P('typedef struct @S { int a; int b; } @T;\nint @f(int a) { @T s = { 1, 2 }; struct @S { long b; } t; t.b = a; @T u = { 3, 4 }; s.b += t.b; return s.b + u.b + sizeof(@T) + sizeof(struct @S); }'))
    A(P('struct @S; struct @S* @p;\nstruct @S { int x; long y; };\nstruct @S @v[3];\nlong @f(int a) { @p = @v; @v[1].y = a; @v[2].y = a + 1; @p = @p + 1; long r = @p->y; @p++; r += @p[0].y; return r + (@p - @v) + sizeof *@p; }', globs='p v', ptr='p'))
    for e in ('(v[0].n + 1)->x', 'v[0].n[1].x', '(*(v[0].n + i)).x', 'v[0].n++ - v + v[0].n->x', '(v[0].n += 1)->x', '(&v[0].n[i] - v) + sizeof *v[0].n', '(1 + v[0].n)->x', '(v[1].n - 1)->x', '--v[1].n - v', 'v[1].n[-1].x', 'v[0].n + 1 == v[1].n', 'v[0].n < v[1].n', 'v[0].n->n[0].x'):
        A(P('struct @S { char c; int x; struct @S* n; };\nint @f(int a, int i) { struct @S v[3]; v[0].x = a; v[1].x = a + 5; v[2].x = 3; v[0].n = v; v[1].n = &v[1]; v[2].n = v; return %s; }' % e, pre='i >= 0 && i <= 2'))
    # members and tags live in their own name spaces
    A(P('struct @x { int x; };\nint @f(int a) { struct @x x; x.x = a; return x.x; }'))
    A(P('struct @x { int x; };\nint @f(int x) { struct @x y; y.x = x; return y.x + x; }'))
    A(P('enum @x { @y = 3 };\nint @f(int x) { enum @x z = @y; return z + x; }'))
    A(P('struct @A { int v; };\nstruct @B { char v; int w; };\nint @f(int a) { struct @A x; struct @B y; x.v = a; y.v = 1; y.w = 2; return x.v + y.v + y.w; }'))
    # redeclarations that are allowed
    A(P('int @h(int a);\nint @f(int a) { return @h(a) + 1; }\n'.replace('@h', 'ei_i')))
    A(P('int ei_i(int a);\nint ei_i(int b);\nint @f(int a) { return ei_i(a) + 1; }', expect='maybe'))
    # storage: objects do not overlap, arrays and structures of every size next to each other
    import itertools
    D = ['char %s', 'int %s', 'long %s', 'char %s[3]', 'int %s[2]', 'struct @S %s', 'char* %s', 'char %s[9]']
    for n, c in enumerate(itertools.product(range(8), repeat=3)):
        if tier == 'quick' and n % 3:
            continue
        decl = ' '.join(D[k] % v + ';' for k, v in zip(c, 'xyz'))
        st, sm = '', []
        for k, v in zip(c, 'xyz'):
            s, r = [('%s = a;', '%s'), ('%s = b;', '%s'), ('%s = l;', '%s'), ('%s[0] = a; %s[1] = a + 1; %s[2] = a + 2;', '%s[0] + %s[1] * 3 + %s[2] * 5'), ('%s[0] = b; %s[1] = b + 1;', '%s[0] + %s[1] * 3'), ('%s.c = a; %s.l = l; %s.d = a + 3;', '%s.c + %s.l + %s.d * 7'), ('%s = &a;', '*%s'), (' '.join('%%s[%d] = a - %d;' % (i, i) for i in range(9)), ' + '.join('%%s[%d] * %d' % (i, i + 1) for i in range(9)))][k]
            st += ' ' + s.replace('%s', v)
            sm.append('(%s)' % r.replace('%s', v))
        A(P('struct @S { char c; long l; char d; };\nlong @f(char a, int b, long l) { %s%s return %s; }' % (decl, st, ' + '.join('%s * %d' % (e, m) for e, m in zip(sm, (1, 11, 101)))), pre='b > -1000 && b < 1000 && l > -1000 && l < 1000'))
    # globals: definitions, tentative, order, every size
    A(P('int @a1; char @a2; long @a3; int @a4[3]; char @a5; struct @S { char c; int i; } @a6; long @a7;\nint @f(int a) { @a1 = a; @a2 = a; @a3 = a; @a4[2] = a; @a4[0] = 1; @a5 = 2; @a6.c = a; @a6.i = a; @a7 = 3; return @a1; }', globs='a1 a2 a3 a4 a5 a6 a7', sym='a1 a2 a3 a4 a5 a6 a7'))
    for n in (10, 40) if tier == 'quick' else (10, 40, 120):
        A(P(''.join('int @v%d = %d;\n' % (i, i * 3) for i in range(n)) + 'int @f(int a) { return %s; }' % ' + '.join('@v%d * %d' % (i, i % 5) for i in range(n)), globs=' '.join('v%d' % i for i in range(n)), tag='%d globals' % n))
        A(P('int @f(int a) { %s return %s; }' % (' '.join('int v%d = a + %d;' % (i, i) for i in range(n)), ' + '.join('v%d * %d' % (i, i % 7) for i in range(n))), tag='%d locals' % n))
        A(P('int @f(int a) { int r = 0; %s return r; }' % ' '.join('{ int v%d = a + %d; char w%d = %d; r += v%d + w%d; }' % (i, i, i, i, i, i) for i in range(n)), tag='%d blocks' % n))
        A(P(''.join('int @h%d(int a) { return a + %d; }\n' % (i, i) for i in range(n)) + 'int @f(int a) { return %s; }' % ' + '.join('@h%d(a)' % i for i in range(n)), tag='%d functions' % n))
        A(P('int @f(int a) { int r = 0; %s return r; }' % ' '.join('if (a == %d) r = %d;' % (i * 3, i * i) for i in range(n)), tag='%d ifs' % n))
        A(P('int @f(int a) { switch (a) { %s } return -1; }' % ' '.join('case %d: return %d;' % (i * 5, i + 2) for i in range(n)), tag='%d cases' % n))
        A(P('enum @E { %s };\nint @f(int a) { return a ? @e%d : @e3; }' % (', '.join('@e%d' % i + (' = %d' % (i * 4) if i % 7 == 6 else '') for i in range(n)), n - 1), tag='%d enumerators' % n))
        A(P('struct @S { %s };\nint @f(int a) { struct @S s; s.m%d = a; s.m0 = 1; s.m%d = 2; return s.m%d + s.m0 * 3 + sizeof(struct @S); }' % (' '.join('%s m%d;' % (('char', 'int', 'long', 'int*', 'char')[i % 5].replace('int*', 'unsigned'), i) for i in range(n)), n // 2, n // 3, n // 2), pre='a > -100 && a < 100', tag='%d members' % n))
        A(P('int @f(int a) { int v[%d] = { %s }; return v[a]; }' % (n, ', '.join(str(i * 7 % 31) for i in range(n))), pre='a >= 0 && a < %d' % n, tag='%d elements' % n))
        A(P('int @f(int a) { return %s; }' % ('(' * n + 'a' + ')' * n), tag='%d parentheses' % n))
        A(P('int @f(int a) { %s return 1; %s return 0; }' % ('if (a) {' * (n // 2), '}' * (n // 2)), tag='%d nested ifs' % n))
        A(P('int @f(int a) { return %sa; }' % ('- ' * n), tag='%d minus' % n))
        A(P('int @f(int a) { %s return a; %s }' % ('{' * n, '}' * n), tag='%d nested blocks' % n))
    # recursion: every activation has its own objects
    A(P('int @h(int n, int a) { int x = a + n; if (n > 0) { int y = @h(n - 1, a); x += y; } return x; }\nint @f(int n, int a) { return @h(n, a); }', pre='n >= 0 && n <= 4'))
    A(P('int @h(int n, int* p) { int x[2]; x[0] = n; x[1] = *p; if (n > 0) { @h(n - 1, x); } *p = *p + x[0] + x[1]; return x[1]; }\nint @f(int n, int a) { int z = a; int r = @h(n, &z); return r * 100 + z; }', pre='n >= 0 && n <= 3 && a > -1000 && a < 1000'))
    return ps


# ---------------------------------------------------------------- C16: side effects
def fam_effects(tier):
    ps = []
    A = ps.append
    T = ['char', 'int', 'unsigned', 'long', 'unsigned long long']
    LV = {'param': ('', 'a'), 'local': ('%s x = a; ', 'x'), 'deref': ('%s y = a; %s* x = &y; ', '*x'), 'elem': ('%s x[3]; x[0] = 5; x[2] = 6; x[1] = a; ', 'x[1]'), 'elemv': ('%s x[3]; x[0] = 5; x[2] = 6; x[1] = a; int i = 1; ', 'x[i]'), 'member': ('struct @S x; x.n = 3; x.m = a; ', 'x.m'), 'arrow': ('struct @S y; y.n = 3; y.m = a; struct @S* x = &y; ', 'x->m')}
    for t in T:
        for k, (d, lv) in LV.items():
            sd = 'struct @S { char n; %s m; char o; };\n' % t if 'struct' in d else ''
            dd = d.replace('%s', t)
            for e in ('%s++', '%s--', '++%s', '--%s', '%s += 3', '%s -= 3', '%s = %s + 1'):
                ex = e.replace('%s', '(' + lv + ')' if lv[0] == '*' else lv) if e not in ('++%s', '--%s') else e.replace('%s', lv)
                A(P(sd + 'long long @f(%s a) { %slong long r = %s; return r * 3 + %s; }' % (t, dd, ex, lv), pre='1' if t != 'char' else '1'))
                if k in ('local', 'deref', 'elem'):
                    A(P(sd + 'long long @f(%s a) { %s%s; %s; return %s; }' % (t, dd, ex, ex, lv)))
    for t in ('char', 'int', 'long'):
        for e in ('p++', 'p--', '++p', '--p', 'p += 1', 'p -= 1', 'p += i', 'p -= i', 'p = p + i'):
            A(P('long @f(%s* b, int i) { %s* p = b + 1; %s* q = %s; return (q - b) * 100 + (p - b); }' % (t, t, t, e), pre='i >= -1 && i <= 2'))
        for e in ('*p++', '*++p', '(*p)++', '++*p', '*p--', '*--p', '*p++ = 7', '*++p = 7', '*p = 7', '(*p)--', '--*p'):
            A(P('long @f(%s* b) { %s* p = b + 1; long r = %s; return r * 100 + (p - b); }' % (t, t, e)))
    for op in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
        for t in T:
            for lv, d in (('*b', ''), ('b[i]', ''), ('x.m', 'struct @S x; x.m = *b; ')):
                pre = 'i >= 0 && i < 4' + (' && v > 0 && v < 20' if op in ('<<=', '>>=', '/=', '%=') else '')
                if op in ('*=',) and t == 'unsigned long long':
                    continue
                A(P('struct @S { char c; %s m; };\n%s @f(%s* b, int i, int v) { %s%s %s v; return %s; }' % (t, t, t, d, lv, op, lv), pre=pre))
    # the operand is evaluated once, the value is the new one
    for e in ('(x = a) + x * 0', 'x = y = a', 'x = (y = a) + 1', '(x += a) * 2', 'x = y += a', '(x = a) == a', '!(x = a)', '(x = a) ? x : 3', '(x = a) && (y = 3)', '(x = a) || (y = 3)', 'x = a ? y : 4', 'x = a == y', 'x = -(y = a)', 'x = (char)(y = a)'):
        A(P('int @f(int a) { int x = 5; int y = 6; int r = %s; return r + x * 3 + y * 7; }' % e, pre='a > -1000 && a < 1000') if '(x = a) + x * 0' != e else P('int @f(int a) { int x = 5; int r = (x = a) + 1; return r + x; }'))
    # calls in every operand position happen once each and in order where C orders them
    for e in ('ei_i(1) && ei_i(2)', 'ei_i(1) || ei_i(2)', 'ei_i(1) ? ei_i(2) : ei_i(3)', 'ei_i(1) && ei_i(2) && ei_i(3)', 'ei_i(1) || ei_i(2) && ei_i(3)', '(ei_i(1) || ei_i(2)) && ei_i(3)', '!(ei_i(1) && ei_i(2))', 'ei_i(1) ? ei_i(2) ? 1 : 2 : ei_i(4)', 'ei_i(ei_i(ei_i(a)))', 'a[b + ei_i(1) * 0]' if 0 else 'ei_i(a) + 1', 'sizeof ei_i(3)', 'sizeof(a = 3) + a', 'sizeof(a++) + a', '(ei_i(1), ei_i(2))' if 0 else 'ei_i(a) - a'):
        A(P('int ei_i(int x);\nint @f(int a) { return %s; }' % e, pre='a > -1000 && a < 1000'))
        A(P('int ei_i(int x);\nint @f(int a) { if (%s) return 1; return 2; }' % e, pre='a > -1000 && a < 1000'))
        A(P('int ei_i(int x);\nint @f(int a) { int r = 0; r = %s; a = r; return a; }' % e, pre='a > -1000 && a < 1000') if 'a' not in e.replace('ei_i(a)', '') else P('int ei_i(int x);\nint @f(int a) { int r; r = %s; return r; }' % e, pre='a > -1000 && a < 1000'))
        A(P('int ei_i(int x);\nvoid @f(int a) { %s; }' % e))
    for lv in ('b[ei_i(0) & 3]', '*(b + (ei_i(0) & 3))'):
        for op in ('=', '++', '--'):
            A(P('int ei_i(int x);\nint @f(int* b, int v) { int r = %s; return r; }' % (lv + ' = v' if op == '=' else ('(%s)' % lv if lv[0] == '*' else lv) + op)))
            A(P('int ei_i(int x);\nint @f(int* b, int v) { int r = %s; return r; }' % (lv + ' = v' if op == '=' else op + lv)))
    A(P('int ei_i(int x);\nint @f(int* b, int v) { b[ei_i(0) & 3] += v; return b[0]; }'))
    A(P('int @f(int* b, int v) { int i = 1; b[i++] += v; return i; }'))
    A(P('int @f(int* b, int v) { int* p = b; *p++ -= v; return p - b; }'))
    return ps


# ---------------------------------------------------------------- objects of enumeration type: int in every respect
def EN(body, **kw):
    """body uses `enum @E` as a type; the reference is the same text with int (the sign of the type is the implementation's choice)"""
    d = 'enum @E { @A, @B = 5, @C };\n'
    return P(d + body, ref='enum { @A, @B = 5, @C };\n' + body.replace('enum @E', 'int'), **kw)


def fam_enum(tier):
    ps = []
    A = ps.append
    T = ['char', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
    E = 'enum @E'
    for t in T:
        for op in ('+', '-', '*', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            r = 'int' if op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||') else 'long long'
            A(EN('%s @f(int a, %s b) { %s e = a; return e %s b; }' % (r, t, E, op)))
            if op not in ('&&', '||', '*') or tier != 'quick':
                A(EN('%s @f(%s a, int b) { %s e = b; return a %s e; }' % (r, t, E, op)))
        for op, pre in (('/', 'b > 0'), ('%', 'b > 0'), ('<<', 'b >= 0 && b < 31 && a >= 0 && a < 2'), ('>>', 'b >= 0 && b < 31')):
            if t in ('int', 'unsigned', 'char', 'long'):
                A(EN('long long @f(int a, %s b) { %s e = a; return e %s b; }' % (t, E, op), pre=pre))
        A(EN('%s @f(int a) { %s e = a; return e; }' % (t, E)))
        A(EN('int @f(%s a) { %s e = a; return e; }' % (t, E)))
        A(EN('int @f(%s a) { %s e; e = a; return e == 5; }' % (t, E)))
        A(EN('int @f(%s a) { return (%s)a; }' % (t, E)))
        A(EN('%s @f(int a) { %s e = a; return (%s)e; }' % (t, E, t)))
        A(EN('int @f(%s a, int c) { %s e = a; return (c ? e : a) > 0; }' % (t, E)))
        A(EN('int @f(%s a) { %s e = 1; e += a; return e; }' % (t, E)))
        A(EN('%s @f(%s a, int b) { %s e = b; a -= e; return a; }' % (t, t, E)))
        A(EN('%s @g;\nint @f(%s a) { @g = a; return @g; }' % (E, t), globs='g'))
        A(EN('int @h(%s x, %s y) { return x - y; }\nint @f(%s a, %s b) { return @h(a, b); }' % (E, E, t, t)))
        A(EN('%s @h(%s x) { return x; }\nlong long @f(%s a) { return @h(a) + 1l; }' % (E, t, t)))
        A(EN('%s @f(int* p, %s i) { %s v[3]; v[0] = p[0]; v[1] = p[1]; v[2] = p[2]; return v[i]; }' % (t, t, E), pre='i >= 0 && i < 3'))
    for u in ('-', '~', '!', '+'):
        A(EN('long long @f(int a) { %s e = a; return %se; }' % (E, u)))
    for s in ('e++', 'e--', '++e', '--e', 'e = e + 1', 'e *= 3', 'e <<= 1', 'e &= 12', 'e = @B', 'e = @C - e', 'e = (e = @B) + 1'):
        A(EN('long long @f(int a) { %s e = a; long long r = %s; return r * 3 + e; }' % (E, s), pre='a >= 0 && a < 1000'))
        A(EN('struct @S { char c; %s e; char d; };\nlong long @f(int a) { struct @S s; s.c = 1; s.d = 2; s.e = a; long long r = %s; return r * 3 + s.e * 5 + s.c + s.d; }' % (E, s.replace('e', 's.e').replace('@Bs.e', '@B')), pre='a >= 0 && a < 1000'))
    A(EN('int @f(int a) { %s e = a; switch (e) { case 0: return 1; case 5: return 2; case 6: return 3; default: return 4; } }' % E))
    A(EN('int @f(int a) { %s e = a; if (e) return 1; return 0; }' % E))
    A(EN('int @f(int a) { %s e = a; int n = 0; while (e < @B) { e++; n++; } return n; }' % E, pre='a >= 0'))
    A(EN('int @f(int* p) { %s x = p[0]; %s* q = &x; *q = *q + p[1]; return x; }' % (E, E)))
    A(EN('int @f(int i) { %s v[4] = { @B, 7, @C }; return v[i] + sizeof v; }' % E, pre='i >= 0 && i < 4'))
    A(EN('%s @g[3] = { 5, 1 };\nint @f(void) { return 0; }' % E, globs='g'))
    A(EN('%s @g = 6;\nint @f(void) { return sizeof @g + sizeof(%s) * 10; }' % (E, E), globs='g'))
    A(EN('%s @g = (%s)4294967301l;\nint @f(void) { return 0; }' % (E, E), globs='g'))
    A(EN('typedef %s @T;\nint @f(long a) { @T e = a; @T* p = &e; return *p * 2; }' % E, pre='a > -1000 && a < 1000'))
    A(EN('long @f(int* p, int i) { %s v[4]; %s* q = v; %s* r = &v[i]; return r - q; }' % (E, E, E), pre='i >= 0 && i < 4'))
    return ps


# ---------------------------------------------------------------- expressions of every kind as statements, and cast to void
def fam_unused(tier):
    ps = []
    A = ps.append
    D = 'struct @S { int m; char v[%d]; };\nstruct @S @g;\nint ei_i(int a);\nint @h(int x) { return x; }\nvoid @n(int x) { @g.m = x; }\n'
    EX = ['a', 'b', '7', "'c'", '"abcdef"', 'w', 'u', 's', '@g', '*p', 'p', '*q', 'q->m', 'q->v', 's.m', 's.v', '@g.v', 's.v[1]', 'w[1]', 'u[1]', 'u[1][2]', '@h', '*@h', '&@h', 'fp', '*fp', '@h(a)', 'fp(b)', '(*fp)(a)', '@n(a)', 'ei_i(a)', '&a', '&s', '&w[1]', 'a + b', 'a ? s : @g', 'a ? *q : s', 'a ? w : p', 'a ? @h : fp', 'a ? b : 3', 'a && b', 'a || ei_i(b)', 'a ? ei_i(1) : ei_i(2)', 'a == b', '-a', '!a', '~b', '+a', 'a / 3', 'a % 7', 'a << 3', 'a++', '--b', 'a = b', 'b += a', 'p = w', 'p++', '*p++', '(char)b', '(long)a', 'sizeof a', 'sizeof(struct @S)', 'sizeof s', 'a - (b - ei_i(a))', 'q', '(void)a', '(void)@n(b)', '(void)(a = b)', '(void)(void)b']
    for n in ((3, 4, 9) if tier == 'quick' else (1, 3, 4, 5, 8, 9, 12, 20)):
        for e in EX:
            if n != 9 and not any(x in e for x in ('s', 'g', 'q')):
                continue
            for st in ('%s;', '(void)%s;' if e.replace('@', '').isalnum() else '(void)(%s);', 'for (%s; a == 77; ) return 5;'):
                A(P(D % n + 'int @f(int a, long b) { int w[3]; int u[2][3]; struct @S s; struct @S* q = &s; int* p = w; int (*fp)(int) = @h; s.m = 3; s.v[0] = 4; s.v[1 %% %d] = 5; w[0] = 1; w[1] = 2; w[2] = 3; u[1][2] = 5; u[1][0] = 6; @g.m = 8; %s return a - (b - ei_i(p - w)) + s.m + w[0] * 3; }' % (n, (st % e).replace('s.v[1]', 's.v[0]')), globs='g', tag=(st % e) + ' of %d' % n))
    return ps


# ---------------------------------------------------------------- structures as parameters and results: by the ABI or diagnosed
def fam_structcall(tier):
    ps = []
    A = ps.append
    for n in range(1, 9):
        for k in range(n):
            A(P('struct @S { char v[%d]; };\nint @f(struct @S s) { return s.v[%d]; }' % (n, k), ref='int @f(unsigned long s) { return ((char*)&s)[%d]; }' % k, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @f(int a, struct @S s, long b) { s.v[0] = a; return s.v[%d] - b; }' % (n, n - 1), ref='int @f(int a, unsigned long s, long b) { ((char*)&s)[0] = a; return ((char*)&s)[%d] - b; }' % (n - 1), expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @f(int a, int b, int c, int d, int e, int g, struct @S s, int h) { return s.v[%d] - h; }' % (n, n - 1), ref='int @f(int a, int b, int c, int d, int e, int g, unsigned long s, int h) { return ((char*)&s)[%d] - h; }' % (n - 1), expect='maybe'))
    for m in ('int x; int y;', 'char x; int y;', 'int y; char x;', 'long y; char x;' if 0 else 'long y;', 'char x; char y;', 'int* y;', 'int y;'):
        t = m.split(' y')[0].split(' ')[-1]
        A(P('struct @S { %s };\nlong @f(struct @S s) { return (long)s.y; }' % m, ref='struct @S { %s };\nlong @f(unsigned long s) { return (long)((struct @S*)&s)->y; }' % m, expect='maybe'))
    for n in list(range(1, 10)) + [12, 16, 17, 24, 40]:
        A(P('struct @S { char v[%d]; };\nint @g;\nstruct @S @h(int x) { @g = x; }\nint @f(int a, int b) { @h(a); return a - b; }' % n, expect='maybe', globs='g'))
        A(P('struct @S { char v[%d]; };\nint @h(struct @S x) { return 1; }\nint @f(int a) { return a; }' % n, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @f(int a) { struct @S s; struct @S t; s.v[0] = a; t.v[0] = 3; s = t; return s.v[0]; }' % n, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @f(int a) { struct @S s; s.v[0] = a; struct @S t = s; return t.v[0]; }' % n, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @f(int a) { struct @S s; struct @S t; s.v[0] = 1; t.v[0] = 2; return (a ? s : t).v[0]; }' % n, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nstruct @S @h(int x) { struct @S s; s.v[0] = x; return s; }\nint @f(int a) { return @h(a).v[0]; }' % n, expect='maybe'))
        A(P('struct @S { char v[%d]; };\nint @h(struct @S s) { return s.v[0]; }\nint @f(int a) { struct @S s; s.v[0] = a; return @h(s); }' % n, expect='maybe'))
    return ps


# ---------------------------------------------------------------- C12: long chains
def fam_chain(tier):
    ps = []
    V = 'abcdefgh'
    big = 10 if tier == 'quick' else 30
    small = lambda n: ' && '.join('%s >= 1 && %s <= 3' % (v, v) for v in V[:n])
    sig = lambda n: ', '.join('int ' + v for v in V[:n])
    for n in range(3, 9):
        ps.append(P('int @f(%s) { %s; return %s; }' % (sig(n), ' = '.join(V[:n]), ' + '.join('%s * %d' % (v, i + 1) for i, v in enumerate(V[:n]))), pre=small(n)))
        for ops in (['+=', '-='], ['-=', '='], ['=', '*='], ['^=', '|=', '&='], ['-='], ['*=', '+=', '=']):
            e = ''.join(v + (' %s ' % ops[i % len(ops)] if i < n - 1 else '') for i, v in enumerate(V[:n]))
            ps.append(P('int @f(%s) { %s; return %s; }' % (sig(n), e, ' + '.join('%s * %d' % (v, 7 ** min(i, 4)) for i, v in enumerate(V[:n]))), pre=small(n)))
        for o in ['+', '-', '*', '&', '|', '^', '<', '==', '!=', '>=', '&&', '||', '/', '%']:
            if o in '*/%' and n > 6:
                continue
            pr = ('a >= 0 && a <= 100 && ' + ' && '.join('%s >= 1 && %s <= 3' % (v, v) for v in V[1:n])) if o != '%' else 'a >= 0 && a <= 100 && ' + ' && '.join('%s == %d' % (v, 50 - 6 * i) for i, v in enumerate(V[1:n]))
            ps.append(P('int @f(%s) { return %s; }' % (sig(n), (' %s ' % o).join(V[:n])), pre=pr))
        ps.append(P('int @f(%s) { return %s; }' % (sig(n), ''.join('%s ? %d : ' % (v, i + 1) for i, v in enumerate(V[:n - 1])) + V[n - 1])))
        ps.append(P('int @f(%s) { return %s; }' % (sig(n), ''.join('%s ? ' % v for v in V[:n - 1]) + V[n - 1] + ''.join(' : %d' % (i + 1) for i in range(n - 1)))))
        ps.append(P('int @f(%s) { %s return 0; }' % (sig(n), ' else '.join('if (%s) return %d;' % (v, i + 1) for i, v in enumerate(V[:n])))))
        ps.append(P('int @f(%s) { %s return %d; %s return 99; }' % (sig(n), ' '.join('if (%s)' % v for v in V[:n]), 50, ' '.join('else return %d;' % i for i in range(n - 1)))))
    for n in range(1, big):
        for u in ['- ', '~', '!', '+ ', '- ~', '! -', '*&', '(char)', '(long)(int)', '- (char)']:
            ps.append(P('long @f(int a) { return %sa; }' % (u * n), pre='a > -100 && a < 100'))
            ps.append(P('long @f(int a, int b) { return %sa - %sb; }' % (u * n, u * n), pre='a > -100 && a < 100 && b > -100 && b < 100'))
        ps.append(P('int @f(int a) { return %sa%s; }' % ('(' * n, ')' * n)))
        ps.append(P('int @f(int a, int b) { return %sa%s; }' % ('(' * n, ' - b)' * n), pre='a > -100 && a < 100 && b > -100 && b < 100'))
        if n <= 7:
            ps.append(P('int @f(int a, int b) { return %sa%s; }' % ('(b - ' * n, ')' * n), pre='a > -100 && a < 100 && b > -100 && b < 100'))
        ps.append(P('int @f(int a, int b) { return a%s; }' % (' - b' * n), pre='a > -100 && a < 100 && b > -100 && b < 100'))
        ps.append(P('struct @S { struct @S* q; int b; };\nint @f(int a) { struct @S s; s.q = &s; s.b = a; struct @S* p = &s; return p%s->b; }' % ('->q' * n)))
        ps.append(P('struct @S { struct @S* q; int b; };\nint @f(int a) { struct @S s; s.q = &s; s.b = a; return %s(*s.q).b; }' % '' .join('' for _ in range(n)) if n == 1 else 'struct @S { struct @S* q; int b; };\nint @f(int a) { struct @S s; s.q = &s; s.b = a; return %ss%s.b; }' % ('(*' * n, '.q)' * n)))
        if n <= 6:
            ps.append(P('int @f(int a) { int v%s; v%s = a; return v%s + sizeof v; }' % ('[2]' * n, '[1]' * n, '[1]' * n)))
            ds = ['int %sp%d = &p%d;' % ('*' * (i + 1), i + 1, i) for i in range(n)]
            ps.append(P('int @f(int p0) { %s return %sp%d + 1; }' % (' '.join(ds), '*' * n, n), pre='p0 < 1000'))
            ps.append(P('int @f(int a) { int %sp%s = &a; return *p; }' % ('(' * n + '*', ')' * n)))
            ps.append(P('int @f(int a) { int %sv%s[3]; v[2] = a; return v[2]; }' % ('(' * n, ')' * n)))
            ps.append(P('int @h(int a) { return a - 3; }\nint @f(int a) { int (*%sp%s)(int) = @h; return (%s*p%s)(a); }' % ('(' * n, ')' * n, '*' * n if 0 else '(' * n, ')' * n), pre='a > -1000 && a < 1000'))
            ps.append(P('int @f(int a) { %s a++; %s return a; }' % ('{' * n, '}' * n), pre='a < 1000'))
    return ps
