"""C08: register pressure. Expressions that keep many temporaries alive, with operators that need fixed or scratch registers, calls
and branches at every depth. Beyond the machine's registers a diagnostic is fine, wrong code or a crash is not (expect='maybe')."""
from .prog import P

V = 'abcdefgh'
PRE = 'x >= 0 && x < 16 && y > 0 && y < 16'
# innermost operands and wrappers that claim registers of their own; x, y: int, p: int*
INNER = {'var': 'x', 'lit': '7', 'divlit': 'x / 7', 'modlit': 'x % 7', 'div': 'x / y', 'mod': 'x % y', 'shl': 'y << x', 'shr': 'y >> x', 'shllit': 'x << 3', 'mul': 'x * y', 'cmp': 'x < y', 'eqlit': 'x == 3', 'and': 'x && y', 'or': 'x || y', 'cond': 'x ? y : 3',
         'idx': 'p[x]', 'neg': '-x', 'not': '!x', 'compl': '~x', 'call': 'ei_i(x)', 'call2': 'ei_ii(x, y)', 'inc': 'x++', 'pinc': '++x', 'asg': 'x = y', 'casg': 'x += y', 'cdiv': 'y /= 3', 'cshl': 'y <<= 2', 'cast': '(char)y', 'deref': '*p', 'fcall': '(*@q)(x)', 'big': 'x * 123456789', 'sizeof': 'sizeof(int) - x'}


def nest(ops, leaves, inner):
    s = inner if inner.isalnum() else '(%s)' % inner
    for i, (o, l) in enumerate(reversed(list(zip(ops, leaves)))):
        s = '%s %s %s' % (l, o, s if i == 0 else '(%s)' % s)
    return s


def fn(body, ret='int', decl='', **kw):
    d = ''
    if 'ei_ii(' in body:
        d += 'int ei_ii(int a, int b);\n'
    if 'ei_i(' in body or '@q' in body:
        d += 'int ei_i(int a);\n'
    if '@q' in body:
        body = 'int (*@q)(int) = ei_i; '.replace('@', '') + body.replace('@q', 'q')
    kw.setdefault('pre', PRE)
    return P(d + decl + '%s @f(int a, int b, int c, int d, int x, int y, int* p) { int e = p[12]; int g = p[13]; int h = p[14]; int k = p[15]; %s }' % (ret, body), buf=16, **kw)


LEAF = ['a', 'b', 'c', 'd', 'e', 'g', 'h', 'k', 'a', 'b', 'c', 'd']
OPS = ['+', '-', '-', '+', '-', '+', '-', '+', '-', '+', '+', '-']  # linear: the solver normalises, every clobbered term shows


def fam_pressure(tier):
    ps = []
    deep = range(0, 8) if tier == 'quick' else range(0, 11)
    for k, e in INNER.items():
        side = any(c in e for c in ('=',)) and '==' not in e or '++' in e
        for n in deep:
            # right nested: n left operands stay alive while the inner expression is evaluated
            ps.append(fn('return %s;' % nest(OPS[:n], LEAF[:n], e), expect='ok' if n <= 4 else 'maybe', tag='%s under %d' % (k, n)))
            if n in (2, 4, 5, 6) and not side:
                ps.append(fn('return %s;' % nest(OPS[1:n + 1], ['(%s + %s)' % (v, w) for v, w in zip(LEAF[:n], LEAF[1:])], e), expect='maybe', tag='%s under %d sums' % (k, n)))
            # the inner expression on the left and on the right of live temporaries
            if n in (1, 3, 5, 6):
                ps.append(fn('return %s;' % nest(OPS[:n], LEAF[:n], '(%s) - (%s)' % (e, INNER['divlit'])), expect='maybe' if n > 3 else 'ok', tag='%s - divlit under %d' % (k, n), pre=PRE) if not side else fn('int r = %s; return r + x * 3 + y;' % nest(OPS[:n], LEAF[:n], e), expect='maybe' if n > 3 else 'ok', tag='%s stored under %d' % (k, n)))
    # two register-hungry operands below live temporaries
    K = ['divlit', 'div', 'mod', 'shl', 'shr', 'call', 'cond', 'and', 'idx', 'fcall', 'cmp', 'mul']
    for k1 in K:
        for k2 in K:
            for n in ((0, 2, 5) if tier == 'quick' else range(0, 8)):
                if k1 == 'mul' and k2 in ('div', 'mod', 'mul') or k2 == 'mul' and k1 in ('div', 'mod', 'mul'):
                    continue
                ps.append(fn('return %s;' % nest(OPS[:n], LEAF[:n], '(%s) + (%s)' % (INNER[k1], INNER[k2])), expect='maybe' if n > 3 else 'ok', tag='%s + %s under %d' % (k1, k2, n)))
    # arguments evaluated while temporaries and other arguments are alive
    for n in deep:
        for args in (['x'], ['x', 'y'], ['x', 'y', 'a', 'b', 'c', 'd', 'e', 'g']):
            for t in ('x / 3', 'x % y', 'y << x', 'p[x]', 'ei_i(y)'):
                a = ', '.join(t if i == len(args) // 2 else v for i, v in enumerate(args))
                nm = 'ei_' + 'i' * len(args)
                ps.append(P('int %s(%s);\n' % (nm, ', '.join('int v%d' % i for i in range(len(args)))) + ('int ei_i(int v);\n' if 'ei_i(' in t and nm != 'ei_i' else '') +
                            'int @f(int a, int b, int c, int d, int x, int y, int* p) { int e = p[12]; int g = p[13]; int h = p[14]; int k = p[15]; return %s; }' % nest(OPS[:n], LEAF[:n], '%s(%s)' % (nm, a)), buf=16, pre=PRE, expect='ok' if n <= 4 else 'maybe', tag='%s(%s) under %d' % (nm, a, n)))
    # conditions and assignments through pointers with a long computation on each side
    for n in deep:
        r = nest(OPS[:n], LEAF[:n], 'x / 7')
        ps.append(fn('p[(%s) & 15] = %s; return 0;' % (r, r), expect='maybe' if n > 3 else 'ok', tag='store under %d' % n))
        ps.append(fn('p[x] += %s; return 0;' % r, expect='maybe' if n > 3 else 'ok', tag='compound store under %d' % n))
        ps.append(fn('if ((%s) < (%s)) return 1; return 0;' % (r, nest(OPS[:n], LEAF[1:n + 1], 'y')), expect='maybe' if n > 3 else 'ok', tag='compare under %d' % n))
        ps.append(fn('return (%s) && (%s);' % (r, r), expect='maybe' if n > 3 else 'ok', tag='and of %d' % n))
        ps.append(fn('return %s;' % nest(OPS[:n], LEAF[:n], 'x ? %s : %s' % (r, nest(OPS[:n], LEAF[1:n + 1], 'y'))), expect='maybe' if n > 1 else 'ok', tag='cond of %d' % n))
    # balanced trees
    def tree(d, i=0):
        return LEAF[i % 8] if d == 0 else '(%s %s %s)' % (tree(d - 1, 2 * i), OPS[(d + i) % 4], tree(d - 1, 2 * i + 1))
    for d in ((2, 3, 4, 5, 6) if tier == 'quick' else (2, 3, 4, 5, 6, 7)):
        ps.append(fn('return %s;' % tree(d), expect='maybe' if d > 3 else 'ok', tag='tree of depth %d' % d))
        ps.append(fn('return %s / 5 + %s;' % (tree(d), tree(d)), expect='maybe' if d > 3 else 'ok', tag='trees of depth %d' % d))
    # many values in a row: registers are given back
    ps.append(fn('return %s;' % ' + '.join(LEAF * 5)))
    ps.append(fn('int r = 0; ' + ' '.join('r = r + %s * %d;' % (v, i + 2) for i, v in enumerate(LEAF * 2)) + ' return r;'))
    for i in range(1, 13):
        ps.append(fn('return %s;' % ' - '.join('ei_i(%s)' % v for v in LEAF[:i]), tag='%d calls in a row' % i))
        ps.append(fn('return %s;' % nest(OPS[:i], ['ei_i(%s)' % v for v in LEAF[:i]], 'ei_i(x)'), expect='maybe' if i > 3 else 'ok', tag='%d calls nested' % i))
        e = 'x'
        for j in range(i):
            e = 'ei_i(%s)' % e if j % 2 else 'ei_i(%s + %s)' % (LEAF[j], e)
        ps.append(fn('return %s;' % e, tag='%d calls inside each other' % i))
    # 64-bit temporaries
    for n in deep:
        for e in ('x / 7', '(long)x / y', 'ei_i(x)', '(unsigned)x >> 3', 'x < y'):
            ps.append(fn('return %s;' % nest(OPS[:n], ['(long)' + v for v in LEAF[:n]], e), ret='long', expect='maybe' if n > 4 else 'ok', tag='long %s under %d' % (e, n)))
    return ps


# ---------------------------------------------------------------- statements of every kind before, around and after sensitive ones
SENS = {'call': 'a - (b - (c - ei_i(x)))', 'callargs': 'a - (b - ei_ii(c - d, x / 7))', 'div': '(a + b) - ((c - d) - x / 7)', 'mod': 'a - (b - (c - x % y))', 'shl': 'a - (b - (c - (y << x)))', 'mixed': 'a - (b - ((x && y ? ei_i(c) : d / 7) - (x >> 1)))', 'ptr': 'a - (b - p[(x / 3 + ei_i(y) * 0) & 15])'}
STMT = {'none': '', 'empty': ';', 'decl': 'int z; z = c;', 'init': 'int z = c - d;', 'char': "char z = 'x';", 'long': 'long z = c; z = z * 3;', 'array': 'int z[3] = { a, 2 };', 'array0': 'int z[2] = { };' if 0 else 'int z[2] = { 0 };', 'struct': 'struct @S z = { x, 2 };',
        'nested': 'struct @S z[2] = { { 1, 2 }, { a } };', 'chararray': "char z[5] = { 'a', b };", 'strptr': 'char* z = "abc";', 'struse': 'int z = "abc"[y & 1];', 'if': 'if (a < b) c = d;', 'ifelse': 'if (a) c = d; else d = c;', 'while': 'while (x > y) x = y;', 'for': 'int i; for (i = 0; i < 2; i++) c = c + i;',
        'switch': 'switch (x) { case 1: c = 2; break; case 2: d = 3; default: a = b; }', 'return': 'if (a == 77) return b;', 'voidcall': 'ev_i(a);', 'call0': 'int z = ei_();', 'call1': 'ei_i(b);', 'call7': 'ei_iiiiiii(a, b, c, d, x, y, a);', 'call8': 'int z = ei_iiiiiiii(a, b, c, d, x, y, a, b);',
        'callnest': 'int z = ei_i(ei_i(a) - ei_i(b));', 'divlit': 'int z = a / 7;', 'div': 'int z = a / y;', 'mod': 'int z = a % 7;', 'shl': 'int z = y << x;', 'mul': 'int z = a * 3;', 'logic': 'int z = a && b || c;', 'cond': 'int z = a ? b : c;', 'cmp': 'int z = a < b;', 'not': 'int z = !a;', 'neg': 'int z = -a;', 'compl': 'int z = ~a;',
        'inc': 'a++; --b;', 'casg': 'a += b; c <<= 2; d /= 3;', 'pinc': 'int* z = p; *z++ = a; *--z = b;', 'member': 'struct @S z; z.s = a; z.t = z.s;', 'arrow': 'struct @S z; struct @S* q = &z; q->t = b; c = q->t;', 'addr': 'int* z = &a; *z = b;', 'block': '{ int z = a; { int w = z; b = w; } }', 'void': '(void)a; (void)ei_i(a);', 'biglit': 'long z = 123456789012345l; d = z != 0;',
        'fptr': 'int (*z)(int) = ei_i; z(a);', 'fptr2': 'int (*z)(int, int); z = ei_ii; d = (*z)(a, b);', 'break': 'while (1) { if (x) break; x = 1; }', 'continue': 'int i; for (i = 0; i < 2; i++) { if (i == x) continue; c = c - i; }', 'cast': 'char z = (char)a; d = (unsigned)z;', 'sizeof': 'int z = sizeof(a) + sizeof(struct @S);', 'aggr': 'struct @S z; z; (void)z; int w[3]; w; (void)w;'}
for _n in range(1, 21):
    STMT['str%d' % _n] = 'char z[%d] = "%s";' % (_n, 'abcdefghijklmnopqrstuvwxyz'[:_n - 1])
STMT['strshort'] = 'char z[9] = "ab";'
STMT['strs'] = 'char z[2][8] = { "abcdefg", "hij" };'
DECLS = {'ei_ii(': 'int ei_ii(int a, int b);\n', 'ei_i(': 'int ei_i(int a);\n', 'ei_i;': 'int ei_i(int a);\n', 'ei_ii;': 'int ei_ii(int a, int b);\n', 'ev_i(': 'void ev_i(int a);\n', 'ei_(': 'int ei_(void);\n', 'ei_iiiiiii(': 'int ei_iiiiiii(int a, int b, int c, int d, int e, int g, int h);\n', 'ei_iiiiiiii(': 'int ei_iiiiiiii(int a, int b, int c, int d, int e, int g, int h, int i);\n'}


def ctx(body, **kw):
    d = ''
    for k in DECLS:
        if k in body and DECLS[k] not in d:
            d += DECLS[k]
    if '@S' in body:
        d += 'struct @S { char s; int t; };\n'
    kw.setdefault('pre', PRE)
    return P(d + 'int @f(int a, int b, int c, int d, int x, int y, int* p) { %s }' % body, buf=16, **kw)


def fam_context(tier):
    ps = []
    few = ['call', 'div', 'shl']
    for k, s in STMT.items():
        for j, (m, e) in enumerate(SENS.items()):
            if tier == 'quick' and m not in few and (len(k) + j) % 3:
                continue
            ps.append(ctx('%s return %s;' % (s, e), tag='%s; %s' % (k, m)))
        # the statement between two sensitive ones, in a branch, in a loop
        ps.append(ctx('int r = %s; %s return r - (%s);' % (SENS['div'], s, SENS['call']), tag='div; %s; call' % k))
        ps.append(ctx('if (a < b) { %s } return %s;' % (s, SENS['call']), tag='if %s; call' % k))
        if tier != 'quick' or k in ('str8', 'str5', 'str16', 'voidcall', 'call8', 'return', 'logic', 'switch', 'array', 'nested'):
            ps.append(ctx('if (a < b) { %s c = %s; } else { d = %s; } return c - d;' % (s, SENS['call'], SENS['div']), tag='if { %s; call } else div' % k))
            ps.append(ctx('int r = 0; int n; for (n = 0; n < 2; n++) { %s r = r - (%s); } return r;' % (s, SENS['call']), tag='loop { %s; call }' % k))
            ps.append(ctx('switch (x) { case 1: { %s } c = %s; break; case 2: return %s; default: { %s } } return c;' % (s, SENS['call'], SENS['mod'], s), tag='switch { %s }' % k))
    if tier != 'quick':
        for k1, s1 in STMT.items():
            for k2, s2 in STMT.items():
                ps.append(ctx('{ %s } { %s } return %s;' % (s1, s2, SENS['call']), tag='%s; %s; call' % (k1, k2)))
    return ps
