"""Bounded program universes, one function per property: fam_X(tier) -> [Prog]. Program shapes are enumerated; operand values, literal
digits, memory contents and results of external calls are symbolic."""
from .prog import P

T = ['char', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
S = ['char', 'int', 'long', 'long long']
U = ['unsigned', 'unsigned long', 'unsigned long long']
CMP = ['<', '<=', '>', '>=', '==', '!=']
BIT = ['&', '|', '^']
ADD = ['+', '-', '*']
WIDTH = {'char': 8, 'int': 32, 'unsigned': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
CODE = {'char': 'c', 'int': 'i', 'unsigned': 'I', 'long': 'l', 'unsigned long': 'L', 'long long': 'q', 'unsigned long long': 'Q'}


def promoted(t):
    return 'int' if t == 'char' else t


def common(t, u):
    t, u = promoted(t), promoted(u)
    r = {'int': 0, 'unsigned': 0, 'long': 1, 'unsigned long': 1, 'long long': 2, 'unsigned long long': 2}
    if t == u:
        return t
    if t in S and u in S or t in U and u in U:
        return t if r[t] >= r[u] else u
    us, si = (t, u) if t in U else (u, t)
    if r[us] >= r[si]:
        return us
    return si if WIDTH[si] > WIDTH[us] else ('unsigned long' if si == 'long' else 'unsigned long long')


def divpre(t, u, a='a', b='b'):
    c = common(t, u)
    p = '(%s)%s != 0' % (c, b)
    if c in S:
        p += ' && (%s)%s != -1' % (c, b)
    return p


def res(op, t, u):
    return 'int' if op in CMP or op in ('&&', '||') else common(t, u)


# ---------------------------------------------------------------- C01: operators
OPERANDS = {  # operand kinds: (declarations before @f, statements, expression, globals)
    'param': lambda t, n: ('', '', n, ''),
    'local': lambda t, n: ('', '%s l%s = %s; ' % (t, n, n), 'l' + n, ''),
    'global': lambda t, n: ('%s @g%s;\n' % (t, n), '@g%s = %s; ' % (n, n), '@g' + n, 'g' + n),
    'deref': lambda t, n: ('', '%s x%s = %s; %s* p%s = &x%s; ' % (t, n, n, t, n, n), '*p' + n, ''),
    'elem': lambda t, n: ('', '%s v%s[3]; v%s[1] = %s; ' % (t, n, n, n), 'v%s[1]' % n, ''),
    'member': lambda t, n: ('struct @S%s { char z; %s m; };\n' % (n, t), 'struct @S%s s%s; s%s.m = %s; ' % (n, n, n, n), 's%s.m' % n, ''),
    'call': lambda t, n: ('%s @id%s(%s x) { return x; }\n' % (t, n, t), '', '@id%s(%s)' % (n, n), ''),
}


def fam_ops(tier):
    ps = []
    for t in T:
        for op in ADD + BIT + CMP + ['&&', '||']:
            ps.append(P('%s @f(%s a, %s b) { return a %s b; }' % (res(op, t, t), t, t, op)))
        for op in '/%':
            ps.append(P('%s @f(%s a, %s b) { return a %s b; }' % (common(t, t), t, t, op), pre=divpre(t, t)))
        for op in '+-~!':
            ps.append(P('%s @f(%s a) { return %sa; }' % ('int' if op == '!' else promoted(t), t, op)))
        ps.append(P('int @f(%s a) { return !!a; }' % t))
    kinds = list(OPERANDS)
    for t in (T if tier != 'quick' else ['char', 'int', 'unsigned', 'long', 'unsigned long long']):
        for k1 in kinds:
            for k2 in kinds:
                if tier == 'quick' and k1 != 'param' and k2 != 'param' and k1 != k2 and (kinds.index(k1) + kinds.index(k2)) % 3:
                    continue
                for op in (['+', '-', '*', '/', '%', '&', '<', '=='] if tier == 'quick' else ADD + ['/', '%'] + BIT + CMP + ['&&', '||']):
                    d1, s1, e1, g1 = OPERANDS[k1](t, 'a')
                    d2, s2, e2, g2 = OPERANDS[k2](t, 'b')
                    ps.append(P('%s%s%s @f(%s a, %s b) { %s%sreturn %s %s %s; }' % (d1, d2, res(op, t, t), t, t, s1, s2, e1, op, e2), pre=divpre(t, t) if op in '/%' else '1', globs=g1 + ' ' + g2))
    # immediates of every magnitude, on either side; symbolic digits
    for t in T:
        for nd in ([1, 3, 9] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9]):
            lit = '#K0:%d:i#' % nd
            for op in ADD + BIT + CMP:
                ps.append(P('%s @f(%s a) { return a %s %s; }' % (res(op, t, 'int'), t, op, lit)))
                ps.append(P('%s @f(%s a) { return %s %s a; }' % (res(op, t, 'int'), t, lit, op)))
            for op in '/%':
                ps.append(P('%s @f(%s a) { return a %s %s; }' % (common(t, 'int'), t, op, lit), pre='@KK0 != 0'))
                ps.append(P('%s @f(%s a) { return %s %s a; }' % (common(t, 'int'), t, lit, op), pre=divpre('int', t, b='a')))
    # shifts by a constant
    for t in T:
        w = WIDTH[promoted(t)]
        for op in ('<<', '>>'):
            for nd in (1, 2):
                ps.append(P('%s @f(%s a) { return a %s #K0:%d:i#; }' % (promoted(t), t, op, nd), pre='@KK0 < %d' % w))
    return ps


def fam_varshift(tier):
    ps = []
    for t in T:
        w = WIDTH[promoted(t)]
        for u in T:
            for op in ('<<', '>>'):
                ps.append(P('%s @f(%s a, %s b) { return a %s b; }' % (promoted(t), t, u, op), pre='b >= 0 && b < %d' % w))
    return ps


# ---------------------------------------------------------------- C02: conversions
def fam_conv(tier):
    ps = []
    for t in T:
        for u in T:
            for op in ADD + BIT + CMP:
                ps.append(P('%s @f(%s a, %s b) { return a %s b; }' % ('long long' if op not in CMP else 'int', t, u, op)))
            for op in '/%':
                ps.append(P('long long @f(%s a, %s b) { return a %s b; }' % (t, u, op), pre=divpre(t, u)))
            ps.append(P('%s @f(%s a) { return a; }' % (t, u)))
            ps.append(P('long long @f(%s a) { return (%s)a; }' % (u, t)))
            ps.append(P('%s @f(%s a) { %s x; x = a; return x; }' % ('long long', u, t)))
            ps.append(P('%s @f(%s a) { %s x = a; return x; }' % ('long long', u, t)))
            ps.append(P('long long @f(%s a) { %s x; return x = a; }' % (u, t)))
            ps.append(P('long long @h(%s x) { return x; }\nlong long @f(%s a) { return @h(a); }' % (t, u)))
            ps.append(P('%s @h(%s x) { return x; }\nlong long @f(%s a) { return @h(a); }' % (t, u, u)))
            ps.append(P('long long @f(int c, %s a, %s b) { return c ? a : b; }' % (t, u)))
            ps.append(P('%s @g;\nvoid @f(%s a) { @g = a; }' % (t, u), globs='g', sym='g'))
            ps.append(P('long long @f(%s* a, %s b) { *a = b; return *a; }' % (t, u)))
            ps.append(P('long long @f(%s* a, %s b) { return a[1] + b; }' % (t, u)))
            ps.append(P('%s el_%s(%s x);\nlong long @f(%s a) { return el_%s(a); }'.replace('%s el_', 'long el_') % (CODE[t], t, u, CODE[t])))
            ps.append(P('%s e%s_(void);\nlong long @f(void) { %s x = e%s_(); return x; }' % (t, CODE[t], u, CODE[t])))
            for op in ['+=', '-=', '*=', '&=', '|=', '^=']:
                ps.append(P('%s @f(%s a, %s b) { a %s b; return a; }' % (t, t, u, op)))
            for op in ('<<', '>>'):
                ps.append(P('long long @f(%s a, %s b) { return a %s b; }' % (t, u, op), pre='b >= 0 && b < %d' % WIDTH[promoted(t)]))
                ps.append(P('int @f(%s a, %s b) { return (a %s b) < 0; }' % (t, u, op), pre='b >= 0 && b < %d' % WIDTH[promoted(t)]))
            for op in ['/=', '%=']:
                ps.append(P('%s @f(%s a, %s b) { a %s b; return a; }' % (t, t, u, op), pre=divpre(t, u)))
            for op in CMP:
                ps.append(P('int @f(%s a, %s b) { if (a %s b) return 1; return 0; }' % (t, u, op)))
            for v in (T if tier != 'quick' else ['char', 'unsigned', 'long']):
                ps.append(P('long long @f(%s a) { return (%s)(%s)a; }' % (u, t, v)))
                ps.append(P('long long @f(%s a, %s b, %s c) { return a + b * c; }' % (t, u, v)))
        for op in '-~+!':
            ps.append(P('long long @f(%s a) { return %sa; }' % (t, op)))
        for lit in ['#K0:9:i#', '-#K0:9:i#', '~#K0:9:i#', '#K0:2:i#']:
            for u in T:
                ps.append(P('long long @f(void) { return (%s)(%s)%s; }' % (t, u, lit)))
            ps.append(P('long long @f(void) { %s x = %s; return x; }' % (t, lit)))
            ps.append(P('long long @h(%s x) { return x; }\nlong long @f(void) { return @h(%s); }' % (t, lit)))
            ps.append(P('%s @f(void) { return %s; }' % (t, lit)))
            ps.append(P('long long @f(%s a) { return a == %s; }' % (t, lit)))
            ps.append(P('long long @f(%s a) { return a < %s; }' % (t, lit)))
            ps.append(P('long long @f(%s a) { return a + %s; }' % (t, lit)))
            ps.append(P('long long @f(int c, %s a) { return c ? a : %s; }' % (t, lit)))
    return ps


# ---------------------------------------------------------------- C03: control flow
def conds(tier):
    """condition expressions over int a, b and calls with observable effects"""
    c = ['a', '!a', 'a < b', 'a > b', 'a <= b', 'a >= b', 'a == b', 'a != b', 'a && b', 'a || b', '!(a < b)', '!(a == b)', '!(a && b)', 'a && b || c', 'a || b && c',
         '(a || b) && c', 'a && (b || c)', 'a < b && b < c', 'a < b || b < c', 'a == b && !c', 'a ? b : c', '(a ? b : c) < d', 'a = b', '(a = b) == c', 'a & b', 'a - b',
         'a < b == c', 'a == b < c', 'ei_i(a)', 'ei_i(a) && ei_i_1(b)', 'ei_i(a) || ei_i_1(b)', '!ei_i(a)', 'ei_i(a) < ei_i_1(b)', 'a && ei_i(b) || c', '(a < b) < c', '(a && b) == c', '!!a', '1', '0', 'a++', '--a', '-a', '~a', 'a < 5', '5 < a', 'a == 0', '0 == a', 'a != 0 && b / a > c' ]
    return c


def _decl(cond):
    d = ''
    for e in ('ei_i_1', 'ei_i'):
        if e + '(' in cond:
            d += 'int %s(int x);\n' % e
    if 'ev_i(' in cond:
        d += 'void ev_i(int x);\n'
    return d


def fam_cond(tier):
    ps = []
    P0 = globals()['P']
    def P(src, **kw):
        return P0(src, pre='a != -1', **kw)
    for c in conds(tier):
        d = _decl(c) + 'void ev_i(int x);\n'
        h = d + 'int @f(int a, int b, int c, int d) { '
        ps.append(P(h + 'return %s; }' % c))
        ps.append(P(h + 'int r = %s; return r + a; }' % c))
        ps.append(P(h + 'if (%s) return 1; return 2; }' % c))
        ps.append(P(h + 'if (%s) ev_i(1); else ev_i(2); ev_i(3); return a; }' % c))
        ps.append(P(h + 'if (%s) { } else ev_i(2); return b; }' % c))
        ps.append(P(h + 'return (%s) ? d : a + 1; }' % c))
        ps.append(P(h + 'return ((%s) ? d : a) + ((%s) ? 3 : b); }' % (c, c) if 'ei_i' not in c else h + 'return ((%s) ? d : a) * 2; }' % c))
        ps.append(P(h + 'return !(%s); }' % c))
        ps.append(P(h + 'return (%s) && d; }' % c))
        ps.append(P(h + 'return d || (%s); }' % c))
        ps.append(P(h + 'return (%s) + 1; }' % c))
        ps.append(P(h + 'return (%s) == (d < 3); }' % c))
        ps.append(P(h + 'int n = 0; while (%s) { n++; if (n > 2) break; } return n; }' % c))
        ps.append(P(h + 'int n; for (n = 0; %s; n++) if (n > 1) return n; return 7; }' % c))
        ps.append(P(h + 'switch (%s) { case 0: return 10; case 1: return 11; case -1: return 9; } return 12; }'.replace('case -1: return 9; ', '') % c))
        ps.append(P(h + 'int v[4]; v[0] = 1; v[1] = 2; v[2] = 3; v[3] = 4; return v[(%s) ? 1 : 2]; }' % c))
        ps.append(P('int ei_ii(int x, int y);\n' + h + 'return ei_ii(%s, d); }' % c))
    P = P0
    # conditions of every type
    for t in T:
        for c in ['a', '!a', 'a < b', 'a == b', 'a && b', 'a || b', 'a >= b', 'a != b']:
            h = 'int @f(%s a, %s b) { ' % (t, t)
            ps.append(P(h + 'if (%s) return 1; return 0; }' % c))
            ps.append(P(h + 'return (%s) ? 5 : 6; }' % c))
            ps.append(P(h + 'int n = 0; while (%s) { n++; if (n > 1) break; } return n; }' % c))
            ps.append(P(h + 'int n; for (n = 0; %s; n++) if (n == 1) break; return n; }' % c))
        ps.append(P('int @f(%s a) { switch (a) { case 1: return 1; case 7: return 2; default: return 3; } }' % t))
        ps.append(P('int @f(%s a) { switch (a) { case #K0:9:i#: return 1; case 1234567890: return 2; } return 3; }' % t,
                    ref='int @f(%s a) { return a == (%s)@KK0 ? 1 : a == (%s)1234567890 ? 2 : 3; }' % (t, promoted(t), promoted(t))))
    for t in T:
        h = 'int @f(%s* a, %s* b) { ' % (t, t)
        for c in ['a', '!a', 'a == b', 'a != b', 'a && b', 'a < b', 'a >= b']:
            ps.append(P(h + 'if (%s) return 1; return 0; }' % c))
    return ps


def blocks(tier):
    """statement bodies; depth-2 compositions of control statements with observable events"""
    leaf = ['ev_i(1);', 'r = r + a;', 'return r;', ';', '{ }']
    loopleaf = ['break;', 'continue;', 'if (b) break;', 'if (b == n) continue;', '{ if (c) continue; ev_i(4); }', '{ if (n == 1) break; ev_i(5); }']
    return leaf, loopleaf


def fam_flow(tier):
    ps = []
    leaf, loopleaf = blocks(tier)
    H = 'void ev_i(int x);\nint @f(int a, int b, int c) { int r = 0; int n = 0; '
    E_ = ' ev_i(r); return r + n; }'

    def add(body, pre='1'):
        ps.append(P(H + body + E_, pre=pre))

    def simple(x, y):
        return ['if (a) %s' % x, 'if (a) %s else %s' % (x, y), 'if (a) %s else if (b) %s else ev_i(9);' % (x, y), 'if (a) { if (b) %s else %s }' % (x, y), 'if (a) if (b) %s else %s' % (x, y),
                '{ %s %s }' % (x, y), 'switch (a) { case 0: %s case 1: %s break; default: ev_i(8); }' % (x, y), 'switch (a) { default: %s case 3: %s break; case 4: ev_i(8); }' % (x, y),
                'switch (a) { case 2: %s break; case 5: if (b) break; %s }' % (x, y), 'switch (a) { case 0: { %s } case 1: { int q = b; r = r + q; %s break; } }' % (x, y)]
    B = ['a >= 0 && a <= 3', '1']
    for x in leaf:
        for y in leaf:
            for s in simple(x, y):
                add(s)
    loops = ['while (n < a) { n++; %s %s }', 'for (n = 0; n < a; n++) { %s %s }', 'for (n = 0; n < a; n++) { ev_i(n); %s %s r++; }', 'for (; n < a; ) { n = n + 1; %s %s }', 'for (int i = 0; i < a; i++) { n = i; %s %s }',
             'while (1) { if (n >= a) break; n++; %s %s }', 'for (;;) { if (n++ >= a) break; %s %s }']
    L2 = leaf + loopleaf
    for l in loops:
        for x in L2:
            for y in L2:
                if tier == 'quick' and (L2.index(x) + 2 * L2.index(y) + loops.index(l)) % 3:
                    continue
                if 'for (int i' in l and False:
                    continue
                add(l % (x, y), 'a >= 0 && a <= 2')
    # nested loops, loops in switches and switches in loops
    for x in L2:
        for y in ['ev_i(2);', 'break;', 'continue;', 'if (c == n) break;', 'if (c == n) continue;']:
            add('int i; for (i = 0; i < a; i++) { for (n = 0; n < 2; n++) { ev_i(n); %s } r++; %s }' % (x, y.replace('== n', '== i')), 'a >= 0 && a <= 2')
            add('int i = 0; while (i < a) { i++; n = 0; while (n < 2) { n++; %s ev_i(n); } %s ev_i(i); }' % (x, y), 'a >= 0 && a <= 2')
            add('for (n = 0; n < a; n++) { switch (b) { case 0: %s case 1: ev_i(3); break; default: %s } ev_i(6); }' % (x, y), 'a >= 0 && a <= 2')
            add('for (n = 0; n < 2; n++) { switch (a) { case 1: for (r = 0; r < 2; r++) { %s ev_i(r); } break; case 2: %s } ev_i(6); }' % (x, y))
            add('switch (a) { case 1: while (n < 2) { n++; %s } ev_i(6); case 2: if (b) { for (;;) { %s break; } } break; default: switch (b) { case 3: ev_i(1); break; case 4: ev_i(2); } ev_i(7); }' % (x, y if y != 'continue;' and 'continue' not in y else ';'))
    # switch shapes: positions of default, fallthrough, duplicates of breaks, many cases, nested
    for pos in range(5):
        for brk in range(16):
            lab = ['case 1:', 'case 2:', 'case 10:', 'case 100000:']
            seq = []
            for i in range(4):
                seq.append(lab[i] + ' ev_i(%d);' % (i + 1) + (' break;' if brk >> i & 1 else ''))
            if pos < 4:
                seq.insert(pos, 'default: ev_i(9);' + (' break;' if brk & 1 else ''))
            add('switch (a) { %s }' % ' '.join(seq))
    add('switch (a) { }')
    add('switch (a) { ev_i(3); }')
    add('switch (a) { default: ev_i(2); }')
    add('switch (a) ev_i(3);')
    add('switch (a) case 1: ev_i(3);')
    add('switch (a) { case 1: case 2: case 3: ev_i(4); case 4: case 5: break; case 6: default: ev_i(7); }')
    add('switch (a) { case 1: switch (b) { case 1: ev_i(1); break; case 2: ev_i(2); default: ev_i(3); } case 2: ev_i(4); }')
    add('switch (a) { case 0: if (b) { case 1: ev_i(2); } else { case 2: ev_i(3); } ev_i(4); }')
    b = 'switch (a) { case #K0:5:i#: ev_i(1); break; case 99999: ev_i(2); }'
    ps.append(P(H + b + E_, lpre='@KK0 != 99999', ref=H + 'if (a == (int)@KK0) ev_i(1); else if (a == 99999) ev_i(2);' + E_))
    b = 'switch (a) { case 7: ev_i(1); case #K0:5:i#: ev_i(2); default: ev_i(3); }'
    ps.append(P(H + b + E_, lpre='@KK0 != 7', ref=H + 'if (a == 7) ev_i(1); if (a == 7 || a == (int)@KK0) ev_i(2); ev_i(3);' + E_))
    add('for (int i = 0; i < 2; i++) { int r = i; ev_i(r); } ')
    add('if (a) { int r = 5; ev_i(r); } ')
    # recursion and mutual recursion
    ps.append(P('int @f(int a) { if (a <= 0) return 1; return a * @f(a - 1); }', pre='a <= 4'))
    ps.append(P('int @f(int a) { return a < 2 ? a : @f(a - 1) + @f(a - 2); }', pre='a <= 5'))
    ps.append(P('int @f(int a) { int (*p)(int) = @f; if (a <= 0) return 3; return a - p(a - 1); }', pre='a <= 4'))
    ps.append(P('void ev_i(int x);\nvoid @f(int a) { if (a > 3) return; if (a < 0) { ev_i(1); return; } ev_i(a); }'))
    ps.append(P('int @f(int a) { while (a < 10) { if (a == 5) return a; a++; } return -a; }', pre='a > 4'))
    return ps


# compositions: a jump inside a statement, one behind it in the enclosing statement
OUTER = {'while': 'int i%(d)d = 0; while (i%(d)d < 2) { i%(d)d++; %(b)s }', 'for': 'int i%(d)d; for (i%(d)d = 0; i%(d)d < 2; i%(d)d++) { %(b)s }', 'forever': 'int i%(d)d = 0; for (;;) { if (i%(d)d++ == 2) break; %(b)s }', 'case': 'switch (%(v)s) { case 1: %(b)s case 2: ev_i(2%(d)d); break; default: ev_i(3%(d)d); }', 'default': 'switch (%(v)s) { case 1: ev_i(2%(d)d); default: { %(b)s } case 7: ev_i(3%(d)d); }',
         'nodefault': 'switch (%(v)s) { case 1: ev_i(2%(d)d); break; case 2: %(b)s }', 'if': 'if (%(v)s) { %(b)s } else ev_i(2%(d)d);', 'else': 'if (%(v)s) ev_i(2%(d)d); else { %(b)s }', 'block': '{ %(b)s }'}
LOOPS = ('while', 'for', 'forever')
SWITCHES = ('case', 'default', 'nodefault')


def jumps(path):
    """jump statements that are valid inside of the statements `path`"""
    j = ['', 'if (c) return 9;']
    if any(k in LOOPS for k in path):
        j += ['continue;', 'if (c) continue;', 'if (c == n) continue;']
    if any(k in LOOPS or k in SWITCHES for k in path):
        j += ['break;', 'if (c) break;']
    return j


def fam_nest(tier):
    ps = []
    H = 'void ev_i(int x);\nint @f(int a, int b, int c) { int n = 0; '

    def build(path, js, d=0):
        if d == len(path):
            return js[d]
        return '%s ev_i(1%d); n++; %s' % (OUTER[path[d]] % {'d': d, 'v': 'ab'[d % 2], 'b': 'ev_i(%d); ' % (d + 1) + build(path, js, d + 1)}, d, js[d])
    K = list(OUTER)
    for x, k1 in enumerate(K):
        for y, k2 in enumerate(K):
            if k1 in ('block', 'if', 'else') and k2 in ('block', 'if', 'else'):
                continue
            for u, j2 in enumerate(jumps((k1, k2))):
                for v, j1 in enumerate(jumps((k1,))):
                    if tier == 'quick' and (u + v + x + y) % 2:
                        continue
                    ps.append(P(H + build((k1, k2), ('', j1, j2)) + ' return n; }'))
    for x, k1 in enumerate(K):
        for y, k2 in enumerate(K):
            for z, k3 in enumerate(K):
                if sum(k in ('block', 'if', 'else') for k in (k1, k2, k3)) > 1:
                    continue
                for w, (j3, j2, j1) in enumerate([('break;', 'if (c) break;', 'if (c == n) break;'), ('continue;', 'if (c) continue;', 'if (c == n) continue;'), ('if (c) break;', 'if (c == n) continue;', 'break;'), ('if (c) continue;', 'if (c == n) break;', 'continue;')]):
                    if tier == 'quick' and (x + 2 * y + 3 * z + w) % 8:
                        continue
                    ok = [j if ('continue' not in j or any(k in LOOPS for k in q)) and ('break' not in j or any(k in LOOPS or k in SWITCHES for k in q)) else '' for j, q in ((j1, (k1,)), (j2, (k1, k2)), (j3, (k1, k2, k3)))]
                    ps.append(P(H + build((k1, k2, k3), ('', ok[0], ok[1], ok[2])) + ' return n; }'))
    return ps


# ---------------------------------------------------------------- C04: calls and the ABI
def fam_call(tier):
    ps = []
    names = 'abcdefghijkl'
    for n in range(0, 13):
        for rot in range(1 if not n else 7 if n < 9 else 2):
            tys = [T[(i + rot) % 7] for i in range(n)]
            sig = ', '.join('%s %s' % (t, names[i]) for i, t in enumerate(tys)) or 'void'
            codes = ''.join(CODE[t] for t in tys)
            # callee side: every parameter is observable
            for i in range(n):
                ps.append(P('%s @f(%s) { return %s; }' % (tys[i], sig, names[i])))
            if n:
                ps.append(P('long @f(%s) { return %s; }' % (sig, ' + '.join('%s * %d' % (names[i], i + 2) for i in range(n)))))
                ps.append(P('long @f(%s) { long r = 0; %s return r; }' % (sig, ' '.join('r = r * 3 + %s;' % names[i] for i in reversed(range(n))))))
                # locals next to parameters
                ps.append(P('long @f(%s) { char x = 1; long y = 2; int z = 3; %s = x; y = y + %s; return y + z + x + %s; }' % (sig, names[0], names[n - 1], names[0])))
            # caller side to an external function
            e = 'el_' + codes
            ps.append(P('long %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join(names[:n]))))
            ps.append(P('long %s(%s);\nlong @f(%s) { return %s(%s) + %s; }' % (e, sig, sig, e, ', '.join(names[:n]), names[0] if n else '1')))
            ps.append(P('long %s(%s);\nlong @f(%s) { return %s + %s(%s); }' % (e, sig, sig, names[0] if n else '1', e, ', '.join(names[:n]))))
            if n:
                ps.append(P('long %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join('%s + %d' % (x, k) for k, x in enumerate(names[:n])))))
                ps.append(P('long %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join(reversed(names[:n])))))
                ps.append(P('long %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join('%d' % (k + 100) for k in range(n)))))
                ps.append(P('int ei_i(int x);\nlong %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join(['ei_i(7)'] + list(names[1:n])))))
                ps.append(P('int ei_i(int x);\nlong %s(%s);\nlong @f(%s) { return %s(%s); }' % (e, sig, sig, e, ', '.join(list(names[:n - 1]) + ['ei_i(7)']))))
                ps.append(P('void ev_%s(%s);\nvoid @f(%s) { ev_%s(%s); }' % (codes, sig, sig, codes, ', '.join(names[:n]))))
                ps.append(P('long %s(%s);\nlong @f(%s) { return %s - (%s - %s(%s)); }' % (e, sig, sig, names[0], names[n - 1], e, ', '.join(names[:n]))))
            # internal calls
            if n:
                ps.append(P('long @hh(%s) { return %s; }\nlong @f(%s) { return @hh(%s) + @hh(%s); }' % (sig, ' + '.join('%s * %d' % (names[i], i + 2) for i in range(n)), sig, ', '.join(names[:n]), ', '.join(reversed(names[:n])))))
                ps.append(P('long @hh(%s) { return %s; }\nlong @f(%s) { return %s * @hh(%s) + %s; }' % (sig, ' - '.join('%s * %d' % (names[i], i + 2) for i in range(n)), sig, names[0], ', '.join(names[:n]), names[n - 1])))
    # return types
    for t in T:
        c = CODE[t]
        ps.append(P('%s e%s_(void);\n%s @f(void) { return e%s_(); }' % (t, c, t, c)))
        ps.append(P('%s e%s_(void);\nlong @f(long a) { return e%s_() + a; }' % (t, c, c)))
        ps.append(P('%s e%s_(void);\nlong @f(long a) { return a - e%s_(); }' % (t, c, c)))
        ps.append(P('%s e%s_(void);\nint @f(int a) { if (e%s_()) return 1; return 2; }' % (t, c, c)))
        ps.append(P('%s @h(%s x) { return x; }\n%s @f(%s a) { %s (*p)(%s) = @h; return p(a); }' % (t, t, t, t, t, t)))
        ps.append(P('%s @h(%s x, %s g(%s)) { return g(x); }\n%s @k(%s x) { return x + 1; }\n%s @f(%s a) { return @h(a, @k); }' % ((t,) * 8)))
    # nesting, sequencing of observable calls, live values across calls
    D = 'int ei_i(int x);\nint ei_i_1(int x);\nint ei_ii(int x, int y);\nint ei_iii(int x, int y, int z);\nvoid ev_i(int x);\nint ei_(void);\n'
    bodies = ['return ei_i(ei_i_1(a));', 'return ei_ii(ei_i(a), b);', 'return ei_ii(a, ei_i(b));', 'return ei_iii(a, b, ei_i(c));', 'return ei_iii(ei_i(a), b, c);', 'return ei_iii(a, ei_i(b), c);',
              'return a + ei_i(b);', 'return a + b * ei_i(c);', 'return (a + b) * ei_i(c) - a;', 'return (a * b) - (c + ei_i(a + b)) * c;', 'return a + (b + (c + ei_i(a)));', 'return a * (b - (c * (a + ei_i(b))));',
              'return a - (b - (c - (a * ei_i(b + c))));', 'int x = ei_i(a); int y = ei_i(b); return x * y + c;', 'ev_i(a); ev_i(b); ev_i(c); return a;', 'ev_i(ei_i(a)); return b;', 'ei_i(a); return b;', 'return ei_() + ei_();'.replace('ei_() + ei_()', 'ei_() - a'),
              'int x; x = ei_i(a) + b; ev_i(x); return x;', 'return ei_i(a) < b;', 'return a < ei_i(b);', 'return -ei_i(a);', 'return !ei_i(a);', 'return ~ei_i(a) & b;', 
              'return ei_ii(a + b, b - c) * (a ^ b);', 'return ei_iii(a * b, b * c, c * a) + a;', 'int v[2]; v[0] = ei_i(a); v[1] = ei_i(b); return v[0] - v[1] + c;', 'return a ? ei_i(b) : ei_i_1(c);', 'return (a ? ei_i(b) : c) + a;',
              'if (a) ev_i(b); else ev_i(c); return ei_();', 'while (a > 0) { ev_i(a); a--; } return b;', 'return ei_ii(ei_ii(a, b), ei_i(c)) * 0 + a;'.replace('ei_ii(ei_ii(a, b), ei_i(c)) * 0 + a', 'ei_ii(ei_ii(a, b), c)'),
              'return ei_iii(ei_ii(ei_i(a), b), c, 3);', 'return (a + b) * (b + c) + ei_i(a) * (c + a);', 'return (a + b) * ((b + c) * ((c + a) * ei_i(a)));', 'return (a+1)*((b+2)*((c+3)*((a+4)*((b+5)*ei_i(c)))));']
    for b in bodies:
        ps.append(P(D + 'int @f(int a, int b, int c) { %s }' % b, pre='a <= 2'))
        ps.append(P(D.replace('int e', 'long e').replace('ei_', 'el_').replace('int x', 'long x').replace('int y', 'long y').replace('int z', 'long z').replace('(long', '(long').replace('el_iii', 'el_lll').replace('el_ii', 'el_ll').replace('el_i', 'el_l').replace('ev_i', 'ev_l')
                    + 'long @f(long a, long b, long c) { %s }' % b.replace('ei_', 'el_').replace('int ', 'long ').replace('el_iii', 'el_lll').replace('el_ii', 'el_ll').replace('el_i', 'el_l').replace('ev_i', 'ev_l'), pre='a <= 2'))
    # function pointers
    FP = 'int @add(int x, int y) { return x + y; }\nint @sub(int x, int y) { return x - y; }\n'
    for b in ['int (*p)(int, int) = @add; return p(a, b);', 'int (*p)(int, int) = &@sub; return (*p)(a, b);', 'int (*p)(int, int); p = c ? @add : @sub; return p(a, b);', 'int (*p)(int, int) = @add; if (c) p = @sub; return p(a, b) + p(b, a);',
              'return (c ? @add : @sub)(a, b);', 'return (*@add)(a, b);', 'return (&@sub)(a, b);', 'int (*p)(int, int) = @add; return a * p(a, b) - b;', 'int (*t[2])(int, int); t[0] = @add; t[1] = @sub; return t[c ? 1 : 0](a, b);']:
        ps.append(P(FP + 'int @f(int a, int b, int c) { %s }' % b))
    ps.append(P(FP + 'int @ap(int g(int x, int y), int x, int y) { return g(x, y); }\nint @f(int a, int b) { return @ap(@add, a, b) * @ap(@sub, a, b); }'))
    ps.append(P(FP + 'int @ap(int (*g)(int, int), int x, int y) { return g(y, x); }\nint @f(int a, int b) { return @ap(@sub, a, b); }'))
    ps.append(P('void @h(void) { }\nint @f(int a) { @h(); return a; }'))
    ps.append(P('void @h(int* p, int v) { *p = v; }\nint @f(int a) { int x = 1; @h(&x, a); return x; }'))
    ps.append(P('void @sw(int* p, int* q) { int t = *p; *p = *q; *q = t; }\nint @f(int a, int b) { @sw(&a, &b); return a * 3 + b; }'))
    ps.append(P('long @f(int a, long* b) { b[0] = a; b[1] = b[0] + b[2]; return b[1]; }'))
    return ps
