"""Programs with many of one thing: cases, members, enumerators, strings, functions, array elements, declarations, initializers, statements."""
from .prog import P


def ns(tier):
    return [3, 5, 7, 9, 12, 17, 24, 33, 50] if tier == 'quick' else list(range(2, 40)) + [50, 64, 65, 100, 129]


def cases(tier):
    ps = []
    for n in ns(tier):
        for t in ['int', 'char', 'long', 'unsigned']:
            if t == 'char' and n > 33:
                continue
            for step, perm in ((1, 1), (3, 5), (1000003 if t != 'char' else 2, 7)):
                order = sorted(range(n), key=lambda i: (i * perm) % (n + 1))
                body = ' '.join('case %d: %s' % (k * step, 'return %d;' % (k + 10) if k % 3 else 'r = r + %d;' % (k + 1)) for k in order)
                ps.append(P('int @f(%s a) { int r = 0; switch (a) { %s default: r = r + 500; } return r; }' % (t, body)))
                ps.append(P('int @f(%s a) { int r = 0; switch (a) { %s } return r; }' % (t, body.replace('return', 'r =').replace(';', '; break;') if step == 1 else body)))
        ps.append(P('int @f(int a) { %s return 0; }' % ' '.join('if (a == %d) return %d;' % (i * 7, i + 1) for i in range(n))))
        ps.append(P('int @f(int a) { int r = 0; %s return r; }' % ' '.join('if (a > %d) r = r + %d; else r = r - %d;' % (i * 7, i + 1, i) for i in range(min(n, 12)))))
    return ps


def members(tier):
    ps = []
    for n in ns(tier):
        for tys in (['int'], ['char'], ['char', 'long', 'int'], ['long', 'char'], ['char', 'char', 'char', 'int'], ['char*', 'char', 'int']):
            ms = [(tys[i % len(tys)], 'm%d' % i) for i in range(n)]
            val = lambda i: 'a + %d' % i if '*' not in ms[i][0] else '&c'
            d = 'struct @S { %s };\n' % ' '.join('%s %s;' % m for m in ms)
            g = [m for m in ms if '*' not in m[0]]
            ps.append(P(d + 'int @f(void) { return sizeof(struct @S); }'))
            ps.append(P(d + 'long @f(char a) { char c; struct @S s; %s return %s; }' % (' '.join('s.%s = %s;' % (m[1], val(i)) for i, m in enumerate(ms)), ' + '.join('s.%s * %d' % (m[1], i + 1) for i, m in enumerate(g[:40])))))
            if '*' not in ''.join(tys):
                ps.append(P(d + 'struct @S @g = { %s };\nint @f(void) { return 0; }' % ', '.join(str(i + 1) for i in range(n)), globs='g'))
                ps.append(P(d + 'struct @S @g;\nvoid @f(char a) { struct @S s = { %s }; %s }' % (', '.join('a + %d' % i for i in range(n)), ' '.join('@g.%s = s.%s;' % (m[1], m[1]) for m in ms)), globs='g', sym='g'))
                ps.append(P(d + 'long @f(char a) { struct @S s[2]; struct @S* p = s + 1; p->%s = a; s[0].%s = a - 1; return p->%s * 3 + (p - 1)->%s; }' % (ms[-1][1], ms[0][1], ms[-1][1], ms[0][1])))
    return ps


def inits(tier):
    ps = []
    for n in ns(tier):
        for t in ['char', 'int', 'long']:
            ps.append(P('%s @g[%d] = { %s };\nint @f(void) { return 0; }' % (t, n + 1, ', '.join(str(i * 3 + 1) for i in range(n))), globs='g'))
            ps.append(P('%s @g[%d];\nvoid @f(%s a) { %s v[%d] = { %s }; int i; for (i = 0; i < %d; i++) @g[i] = v[i]; }' % (t, n + 1, t, t, n + 1, ', '.join('a + %d' % i if i % 4 else str(i) for i in range(n)), n + 1), globs='g', sym='g'))
        ps.append(P('char @g[%d] = "%s";\nint @f(void) { return 0; }' % (n + 1, ''.join(chr(97 + i % 26) for i in range(n))), globs='g'))
        ps.append(P('char @f(int i) { char* s = "%s"; return s[i]; }' % ''.join(chr(97 + i * 7 % 26) for i in range(n)), pre='i >= 0 && i <= %d' % n))
        ps.append(P('%s\nint @f(void) { return 0; }' % '\n'.join('int @g%d = %d;' % (i, i + 1) for i in range(n)), globs=' '.join('g%d' % i for i in range(n))))
        ps.append(P('struct @S { char c; int v[%d]; };\nstruct @S @g[2] = { { 1, { %s } }, { 2, { %s } } };\nint @f(void) { return 0; }' % (n, ', '.join(str(i) for i in range(n)), ', '.join(str(i * 2) for i in range(n - 1))), globs='g'))
    return ps


def strings(tier):
    ps = []
    for n in ns(tier):
        if n > 33:
            continue
        ps.append(P('char @f(int i) { char* v[%d] = { %s }; return v[i][1]; }' % (n, ', '.join('"%c%c"' % (97 + i % 26, 65 + i % 26) for i in range(n))), pre='i >= 0 && i < %d' % n))
        ps.append(P('int @f(int i) { %s return 0; }' % ' '.join('if (i == %d) return "%c%c"[1];' % (i, 97 + i % 26, 65 + i % 26) for i in range(n))))
        ps.append(P('%sint @f(int i) { %s return 0; }' % (''.join('char* @g%d(void) { return "x%c"; }\n' % (i, 65 + i % 26) for i in range(n)), ' '.join('if (i == %d) return @g%d()[1];' % (i, i) for i in range(n)))))
    return ps


def enums(tier):
    ps = []
    for n in ns(tier):
        e = ', '.join('@E%d%s' % (i, ' = %d' % (i * 100) if i % 5 == 4 else '') for i in range(n))
        ps.append(P('enum { %s };\nint @f(int a) { %s return 0; }' % (e, ' '.join('if (a == %d) return @E%d;' % (i, i) for i in range(n)))))
        ps.append(P('enum { %s };\nint @f(int a) { int v[%d] = { %s }; return v[a]; }' % (e, n, ', '.join('@E%d' % i for i in range(n))), pre='a >= 0 && a < %d' % n))
        ps.append(P('enum @X { %s };\nint @f(int a) { enum @X x = @E%d; return x + a + sizeof(enum @X); }' % (e, n - 1), pre='a > -1000 && a < 1000'))
    return ps


def scopes(tier):
    ps = []
    for n in ns(tier):
        ps.append(P('%sint @f(int a) { return %s; }' % (''.join('int @g%d(int a) { int x = a + %d; return x - 1; }\n' % (i, i) for i in range(n)), ' + '.join('@g%d(a)' % i for i in range(n))), pre='a > -1000 && a < 1000'))
        ps.append(P('%sint @f(int a) { return @g%d(a); }' % (''.join('int @g%d(int a) { return %s; }\n' % (i, '@g%d(a) + %d' % (i - 1, i) if i else 'a') for i in range(n)), n - 1), pre='a > -1000 && a < 1000'))
        ps.append(P('int @f(int a) { %s return %s; }' % (' '.join('int x%d = a + %d;' % (i, i) for i in range(n)), ' + '.join('x%d * %d' % (i, i + 1) for i in range(n))), pre='a > -1000 && a < 1000'))
        ps.append(P('int @f(int a) { int r = 0; %s return r; }' % ' '.join('{ int x = a + %d; char y = %d; r = r + x - y; }' % (i, i % 50) for i in range(n)), pre='a > -1000 && a < 1000'))
        ps.append(P('int @f(int x) { int r = 0; %s r = r * 3 + x; %s return r; }' % (' '.join('{ int y%d = x + %d; int x = y%d;' % (i, i, i) for i in range(min(n, 20))), ' '.join('r = r * 3 + x; }' for i in range(min(n, 20)))), pre='x > -10 && x < 10'))
        ps.append(P('%sint @f(int a) { T%d x = a; return x; }' % (''.join('typedef %s T%d; ' % ('int' if i == 0 else 'T%d' % (i - 1), i) for i in range(n)), n - 1)))
        ps.append(P('%sint @f(int a) { %s return %s; }' % (''.join('struct @S%d { %s; int v; };\n' % (i, 'char c' if i == 0 else 'struct @S%d p' % (i - 1)) for i in range(min(n, 17))), 'struct @S%d s; s%s.v = a;' % (min(n, 17) - 1, '.p' * (min(n, 17) - 1)), 's%s.v + sizeof s' % ('.p' * (min(n, 17) - 1))), pre='a < 100000'))
    return ps
