"""C11 tokens, C14 constants in declarations, C15 constraint checking: programs whose validity depends on symbolic text bytes or literal
values. expect='iff': umlcc accepts exactly when the condition holds, for every value of the holes and literals."""
from .prog import P


def cset(chars):
    return ' || '.join('h == %d' % ord(c) for c in chars)


# ---------------------------------------------------------------- C15: types of operands
# every identifier stands for one type; h: letter -> class
DECL = '''struct S { int a; char b; };
struct T { int a; };
int f(int y) { return y; }
long g(int y) { return y; }
'''
LOC = 'char c, int i, unsigned u, long l, int* p, char* q, struct S* x, struct T* y'
BODY = 'int v[3]; char w[2]; struct S s; struct T t; int (*k)(int); k = f; enum E { A, B } e; e = A; int** r; r = &p; void* o;'
LET = 'ciulpqxyvwstkfger'  # o (void*) is used where the language defines it
HELP = '''
static int @ar(int h) { return h == 'c' || h == 'i' || h == 'u' || h == 'l' || h == 'e'; }
static int @ptr(int h) { return h == 'p' || h == 'q' || h == 'x' || h == 'y' || h == 'v' || h == 'w' || h == 'r' || h == 'k' || h == 'f' || h == 'g' || h == 'o'; }
static int @obj(int h) { return h == 'p' || h == 'q' || h == 'x' || h == 'y' || h == 'v' || h == 'w' || h == 'r'; }  /* points to a complete object type */
static int @sc(int h) { return @ar(h) || @ptr(h); }
static int @st(int h) { return h == 's' || h == 't'; }
static int @tgt(int h) { return h == 'p' || h == 'v' ? 1 : h == 'q' || h == 'w' ? 2 : h == 'x' ? 3 : h == 'y' ? 4 : h == 'r' ? 5 : h == 'k' || h == 'f' ? 6 : h == 'g' ? 7 : h == 'o' ? 8 : 0; }
static int @mod(int h) { return h != 'v' && h != 'w' && h != 'f' && h != 'g'; }
'''
BINOK = {}
for _o in ('*', '/'):
    BINOK[_o] = '@ar(@HA) && @ar(@HB)'
for _o in ('%', '&', '|', '^', '<<', '>>'):
    BINOK[_o] = '@ar(@HA) && @ar(@HB)'
BINOK['+'] = '@ar(@HA) && @ar(@HB) || @obj(@HA) && @ar(@HB) || @ar(@HA) && @obj(@HB)'
BINOK['-'] = '@ar(@HA) && @ar(@HB) || @obj(@HA) && @ar(@HB) || @obj(@HA) && @obj(@HB) && @tgt(@HA) == @tgt(@HB)'
for _o in ('<', '<=', '>', '>='):
    BINOK[_o] = '@ar(@HA) && @ar(@HB) || @ptr(@HA) && @ptr(@HB) && @tgt(@HA) == @tgt(@HB) && @tgt(@HA) < 6'
for _o in ('==', '!='):
    BINOK[_o] = '@ar(@HA) && @ar(@HB) || @ptr(@HA) && @ptr(@HB) && (@tgt(@HA) == @tgt(@HB) || @tgt(@HA) == 8 && @obj(@HB) || @obj(@HA) && @tgt(@HB) == 8)'
for _o in ('&&', '||'):
    BINOK[_o] = '@sc(@HA) && @sc(@HB)'
ASG = '(@mod(@HA) && (@ar(@HA) && @ar(@HB) || @ptr(@HA) && @ptr(@HB) && (@tgt(@HA) == @tgt(@HB) || @HA == \'o\' && @obj(@HB) || @HB == \'o\' && @obj(@HA))))'


def two(stmt, accept, letters=LET, extra=''):
    return P(DECL + 'int z(%s) { %s %s %s return 0; }' % (LOC, BODY, extra, stmt), holes={'A': (cset(letters), 'i'), 'B': (cset(letters), 'i')}, accept=accept, chelp=HELP, tag='types: ' + stmt + extra)


def one(stmt, accept, letters=LET, extra=''):
    return P(DECL + 'int z(%s) { %s %s %s return 0; }' % (LOC, BODY, extra, stmt), holes={'A': (cset(letters), 'i')}, accept=accept, chelp=HELP, tag='types: ' + stmt + extra)


def fam_types(tier):
    ps = []
    for o, ok in BINOK.items():
        # a relation between function pointers or void pointers is left open
        letters = LET.replace('k', '').replace('f', '').replace('g', '').replace('o', '') if o in ('<', '<=', '>', '>=') else LET
        ps.append(two('\u00abA\u00bb %s \u00abB\u00bb;' % o, ok, letters))
        if o not in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            # result of + and - on pointers is a pointer to the same type
            r = {'+': '@ar(@HB) && @obj(@HA) && @mod(@HA) || @ar(@HA) && @ar(@HB)', '-': '@ar(@HB) && @obj(@HA) && @mod(@HA) || @ar(@HA) && @ar(@HB)'}.get(o, '@ar(@HA) && @ar(@HB)')
            ps.append(two('\u00abA\u00bb %s= \u00abB\u00bb;' % o, r))
    ps.append(two('\u00abA\u00bb = \u00abB\u00bb;', ASG, LET.replace('s', '').replace('t', '')))
    ps.append(two('\u00abA\u00bb = \u00abB\u00bb;', '0', 'vwfg'))
    ps.append(one('o = \u00abA\u00bb;', '@obj(@HA)', LET.replace('k', '').replace('f', '').replace('g', '') + 'o' if 0 else 'ciulpqxyvwster'))
    ps.append(one('\u00abA\u00bb = o;', '@obj(@HA) && @mod(@HA)', 'ciulpqxyvwster'))
    for t in ('*o;', 'o + i;', 'i + o;', 'o - i;', 'o - o;', 'o++;', '--o;', 'o += i;', 'o -= l;', 'o[i];', 'o[0];', 'o->a;', 'o.a;', '~o;', '-o;', 'o * i;', 'o & i;', 'o < i;', 'o == i;', 'switch (o) { }', 'i = o;', 'f(o);', 'return o;'):
        ps.append(P(DECL + 'int z(%s) { %s %s return 0; }' % (LOC, BODY, t), expect='reject'))
    ps.append(two('i ? \u00abA\u00bb : \u00abB\u00bb;', '@ar(@HA) && @ar(@HB) || @ptr(@HA) && @ptr(@HB) && (@tgt(@HA) == @tgt(@HB) || @tgt(@HA) == 8 && @obj(@HB) || @obj(@HA) && @tgt(@HB) == 8)', LET.replace('s', '').replace('t', '')))
    for o, ok in {'+': '@ar(@HA)', '-': '@ar(@HA)', '~': '@ar(@HA)', '!': '@sc(@HA)', '*': '@ptr(@HA) && @HA != \'o\'', '&': '1'}.items():
        ps.append(one('%s\u00abA\u00bb;' % o, ok))
    for s in ('\u00abA\u00bb++;', '\u00abA\u00bb--;', '++\u00abA\u00bb;', '--\u00abA\u00bb;'):
        ps.append(one(s, '@ar(@HA) || @obj(@HA) && @mod(@HA)'))
    ps.append(two('\u00abA\u00bb[\u00abB\u00bb];', '@obj(@HA) && @ar(@HB) || @ar(@HA) && @obj(@HB)'))
    ps.append(one('\u00abA\u00bb(i);', '@HA == \'f\' || @HA == \'g\' || @HA == \'k\''))
    ps.append(one('(*\u00abA\u00bb)(i);', '@HA == \'f\' || @HA == \'g\' || @HA == \'k\''))
    ps.append(one('f(\u00abA\u00bb);', '@ar(@HA)'))
    ps.append(one('\u00abA\u00bb.a;', '@st(@HA)'))
    ps.append(one('\u00abA\u00bb.b;', '@HA == \'s\''))
    ps.append(one('\u00abA\u00bb->a;', '@HA == \'x\' || @HA == \'y\''))
    ps.append(one('\u00abA\u00bb->b;', '@HA == \'x\''))
    ps.append(one('(*\u00abA\u00bb).b;', '@HA == \'x\''))
    for t, ok in {'int': '@sc(@HA)', 'char': '@sc(@HA)', 'long': '@sc(@HA)', 'unsigned': '@sc(@HA)', 'int*': '@sc(@HA)', 'struct S*': '@sc(@HA)', 'struct S': '0'}.items():
        # casts of arrays and functions are not part of the language (no decay there)
        ps.append(one('(%s)\u00abA\u00bb;' % t, ok, 'ciulpqxyster'))
    for s in ('if (\u00abA\u00bb) i = 1;', 'while (\u00abA\u00bb) return 1;', 'for (; \u00abA\u00bb; ) return 1;', 'i = \u00abA\u00bb ? 1 : 2;', 'i = !\u00abA\u00bb;'):
        ps.append(one(s, '@sc(@HA)'))
    ps.append(one('switch (\u00abA\u00bb) { case 1: i = 2; }', '@ar(@HA)'))
    ps.append(one('return \u00abA\u00bb;', '@ar(@HA)'))
    ps.append(one('sizeof \u00abA\u00bb;', '@HA != \'f\' && @HA != \'g\''))
    ps.append(one('\u00abA\u00bb;', '1'))
    ps.append(one('int z1 = \u00abA\u00bb;', '@ar(@HA)'))
    ps.append(one('int* z1 = \u00abA\u00bb;', '@tgt(@HA) == 1 || @HA == \'o\''))
    ps.append(one('char* z1 = \u00abA\u00bb;', '@tgt(@HA) == 2 || @HA == \'o\''))
    ps.append(one('struct S* z1 = \u00abA\u00bb;', '@HA == \'x\' || @HA == \'o\''))
    ps.append(one('int (*z1)(int) = \u00abA\u00bb;', '@HA == \'f\' || @HA == \'k\''))
    ps.append(one('int z1[2] = { 1, \u00abA\u00bb };', '@ar(@HA)'))
    ps.append(one('struct S z1 = { 1, \u00abA\u00bb };', '@ar(@HA)'))
    return ps


# ---------------------------------------------------------------- C15: names
AF = "h >= 'a' && h <= 'c'"


def names(src, n, accept, ref=None, **kw):
    hs = {c: (AF, c.lower()) for c in 'ABCD'[:n]}
    import re
    s = re.sub(r'\$([A-D])', '\u00ab\\1\u00bb', src)
    return P(s, holes=hs, accept=accept, ref=ref, tag='names: ' + src, **kw)


def fam_names(tier):
    ps = []
    A = ps.append
    EQ = '@HA == @HB'
    A(names('int z(void) { int $A; return $B; }', 2, EQ))
    A(names('int z(int $A) { return $B; }', 2, EQ))
    A(names('int $A; int z(void) { return $B; }', 2, EQ))
    A(names('int z(void) { int $A; int $B; return 0; }', 2, '!(%s)' % EQ))
    A(names('int z(void) { int $A; { int $B; } return 0; }', 2, '1'))
    A(names('int z(void) { { int $A; } return $B; }', 2, '0'))
    A(names('int z(void) { { int $A; } int $B; return $B; }', 2, '1'))
    A(names('int z(void) { for (int $A = 0; $A < 2; $A++) { } return $B; }', 2, '0'))
    A(names('int z(int $A, int $B) { return 0; }', 2, '!(%s)' % EQ))
    A(names('int z(int $A) { int $B; return 0; }', 2, '!(%s)' % EQ, ) if 0 else names('int z(int $A) { { int $B; } return 0; }', 2, '1'))
    A(names('int $A(void) { return 1; } int $B(void) { return 2; }', 2, '!(%s)' % EQ))
    A(names('int $A; int $B(void) { return 2; }', 2, '!(%s)' % EQ))
    A(names('int $A(void) { return 1; } int z(void) { return $B(); }', 2, EQ))
    A(names('struct $A { int x; }; struct $B y; int z(void) { return y.x; }', 2, EQ))
    A(names('struct $A { int x; }; struct $B { int x; }; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('struct $A { int x; }; enum $B { y }; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('struct $A { int x; }; int z(void) { struct $B* p; return sizeof(p); }', 2, '1'))
    A(names('struct $A { int x; }; int z(void) { struct $B { int y; } q; q.y = 1; return q.y; }', 2, '1'))
    A(names('struct $A { int x; }; int z(struct $B* p) { return p->x; }', 2, EQ))
    A(names('struct $A { int x; struct $B* n; }; int z(struct $A* p) { return p->n->x; }', 2, EQ))
    A(names('struct $A { int x; struct $B n; }; int z(void) { return 0; }', 2, '0'))
    A(names('struct S { int $A; int $B; }; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('struct S { int $A; }; int z(struct S* p) { return p->$B; }', 2, EQ))
    A(names('struct S { int $A; }; int z(void) { struct S s; s.$B = 1; return s.$B; }', 2, EQ))
    A(names('enum E { $A, $B }; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('enum E { $A }; int z(void) { return $B; }', 2, EQ))
    A(names('enum E { $A }; int $B; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('enum $A { x }; struct $B* y; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('struct $A { int x; }; enum $B y; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('typedef int $A; int z(void) { $B x = 1; return x; }', 2, EQ))
    A(names('typedef int $A; typedef char $B; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('typedef int $A; int $B; int z(void) { return 0; }', 2, '!(%s)' % EQ))
    A(names('int z(void) { { typedef int $A; } $B x; return 0; }', 2, '0'))
    # the right object is found: scopes, shadowing, members, parameters
    R3 = "(@HC == @HB ? b : a)"
    A(names('int @f(int a1, int b1) { int $A = a1; { int $B = b1; return $C; } }', 3, '@HC == @HA || @HC == @HB', ref='int @f(int a1, int b1) { return @HC == @HB ? b1 : a1; }'))
    A(names('int @f(int $A, int $B) { return $C; }', 3, '@HA != @HB && (@HC == @HA || @HC == @HB)', ref='int @f(int a, int b) { return @HC == @HB ? b : a; }') if 0 else names('int @f(int x1, int x2) { int $A = x1; int $B = x2; return $C; }', 3, '@HA != @HB && (@HC == @HA || @HC == @HB)', ref='int @f(int x1, int x2) { return @HC == @HB ? x2 : x1; }'))
    A(names('int @f(int x1, int x2) { int $A = x1; { int $B = x2; $B = $B + 1; } return $C; }', 3, '@HC == @HA', ref='int @f(int x1, int x2) { return x1; }'))
    A(names('int @f(int x1, int x2) { int $A = x1; { int $B = x2; { int $C = 7; $C = $C + 1; } $B = $B + 1; $A = 3; } return $A; }', 3, '1', ref='int @f(int x1, int x2) { return @HA == @HB ? x1 : 3; }'))
    A(names('struct S { int $A; char $B; int $C; }; int @f(int x1, int x2) { struct S s; s.$A = x1; s.$B = 5; s.$C = x2; struct S* p; p = &s; return p->$D; }', 4 if tier != 'quick' else 4, '@HA != @HB && @HA != @HC && @HB != @HC && (@HD == @HA || @HD == @HB || @HD == @HC)', ref='int @f(int x1, int x2) { return @HD == @HA ? x1 : @HD == @HB ? 5 : x2; }')) if tier != 'quick' else A(names('struct S { int $A; char $B; int z; }; int @f(int x1, int x2) { struct S s; s.$A = x1; s.$B = 5; s.z = x2; struct S* p; p = &s; return p->$D + s.z; }'.replace('$D', '$C'), 3, '@HA != @HB && (@HC == @HA || @HC == @HB)', ref='int @f(int x1, int x2) { return (@HC == @HA ? x1 : 5) + x2; }'))
    A(names('enum E { $A = 4, $B, $C = 9 }; int @f(int x1) { return $A * 100 + $B * 10 + $C; }', 3, '@HA != @HB && @HB != @HC && @HA != @HC', ref='int @f(int x1) { return 459; }'))
    A(names('int $A(int x) { return x + 1; } int $B(int x) { return x - 1; } int @f(int x1) { return $C(x1); }', 3, '@HA != @HB && @HA != @HC + 256 && (@HC == @HA || @HC == @HB) && @HA != \'f\' && @HB != \'f\' || 0', ref='int @f(int x1) { return @HC == @HA ? x1 + 1 : x1 - 1; }').__class__ and names('int $A(int x) { return x + 1; } int $B(int x) { return x - 1; } int @f(int x1) { return $C(x1); }'.replace('$A(', 'g$A(').replace('$B(', 'g$B(').replace('$C(', 'g$C('), 3, '@HA != @HB && (@HC == @HA || @HC == @HB)', ref='int @f(int x1) { return @HC == @HA ? x1 + 1 : x1 - 1; }'))
    # names of every length and alphabet reach the assembly unchanged
    return ps


# ---------------------------------------------------------------- C15: constants, counts, statements
def fam_constr(tier):
    ps = []
    A = ps.append
    A(P('int z(void) { int v[#K:3:i#]; return sizeof(v); }', accept='@KK > 0'))
    A(P('int v[#K:3:i#]; int z(void) { return 0; }', accept='@KK > 0'))
    A(P('int z(int a) { switch (a) { case #K:3:i#: return 1; case #L:3:i#: return 2; } return 0; }', accept='@KK != @KL'))
    A(P('int z(int a) { switch (a) { case #K:3:i#: switch (a) { case #L:3:i#: return 2; } case #M:3:i#: return 3; } return 0; }', accept='@KK != @KM'))
    A(P('int z(int a) { switch (a) { case #K:3:i#: a = 1; case #L:3:i#: a = 2; case #M:3:i#: a = 3; } return a; }', accept='@KK != @KL && @KK != @KM && @KL != @KM'))
    # labels are converted to the promoted type of the condition: wide ones may coincide with narrow ones
    dig = {h: ("@H%s >= '0' && @H%s <= '9'" % (h, h), '9') for h in 'AB'}
    low = "(4294967200ll + (@HA - '0') * 10 + (@HB - '0'))"
    for t in ['char', 'int', 'unsigned', 'long', 'unsigned long', 'long long']:
        conv = {'char': '(int)', 'int': '(int)', 'unsigned': '(unsigned)'}.get(t, '')
        for lab in ['case 42949672\u00abA\u00bb\u00abB\u00bb']:
            A(P('int z(%s a) { switch (a) { case #K:1:i#: return 1; %s: return 2; } return 0; }' % (t, lab), holes=dig, accept='%s%s != @KK' % (conv, low)))
            A(P('int z(%s a) { switch (a) { %s: return 2; case 7: a = 1; case #K:1:i#: return 1; } return 0; }' % (t, lab), holes=dig, accept='@KK != 7 && %s%s != @KK' % (conv, low)))
    for n in range(1, 5):
        A(P('int z(void) { int v[#K:2:i#] = { %s }; return v[0]; }' % ', '.join('1' * n), accept='@KK >= %d' % n, lpre='@KK <= 6'))
        A(P('int v[#K:2:i#] = { %s }; int z(void) { return v[0]; }' % ', '.join('1' * n), accept='@KK >= %d' % n, lpre='@KK <= 6'))
        A(P('int z(void) { char v[#K:2:i#] = "%s"; return v[0]; }' % ('a' * n), accept='@KK >= %d' % n, lpre='@KK <= 6'))
        A(P('char v[#K:2:i#] = "%s"; int z(void) { return v[0]; }' % ('a' * n), accept='@KK >= %d' % n, lpre='@KK <= 6'))
        A(P('int z(void) { int v[2][#K:2:i#] = { { 1 }, { %s } }; return v[0][0]; }' % ', '.join('1' * n), accept='@KK >= %d' % n, lpre='@KK <= 6'))
        for m in range(0, 5):
            pr = ', '.join('int p%d' % i for i in range(n)) or 'void'
            A(P('int h(%s) { return 1; } int z(void) { return h(%s); }' % (pr, ', '.join('1' * m)), expect='any' if n == m else 'reject'))
    R = ['int z(void) { break; return 0; }', 'int z(void) { continue; return 0; }', 'int z(int a) { switch (a) { continue; } return 0; }', 'int z(void) { case 1: return 0; }', 'int z(void) { default: return 0; }', 'int z(int a) { while (a) { case 1: a = 0; } return 0; }',
         'int z(int a) { switch (a) { default: a = 1; default: a = 2; } return a; }', 'int z(int a) { if (a) { break; } return 0; }', 'void z(void) { return 1; }', 'int z(void) { return; }', 'int z(void) { int x; int x; return 0; }', 'int z(void) { x = 1; return 0; }', 'int z(int a) { a() ; return 0; }', 'int z(int a) { 1 = a; return 0; }', 'int z(int a) { a + 1 = a; return 0; }',
         'int z(int a) { (a + 1) = a; return 0; }', 'int z(int a) { a = 1 = 2; return 0; }', 'int z(int a) { &1; return 0; }', 'int z(int a) { &(a + 1); return 0; }', 'int z(int a) { (a + 1)++; return 0; }', 'int z(int a) { ++1; return 0; }', 'int z(int a) { --(a + 1); return 0; }', 'int z(int a) { *a; return 0; }', 'int z(int a) { a.x; return 0; }', 'int z(int a) { a->x; return 0; }', 'int z(int a) { a[0]; return 0; }',
         'struct S; struct S s; int z(void) { return 0; }', 'struct S; int z(struct S s) { return 0; }', 'struct S { struct S s; }; int z(void) { return 0; }', 'struct S { void x; }; int z(void) { return 0; }', 'struct S { int f(void); }; int z(void) { return 0; }', 'void x; int z(void) { return 0; }', 'int z(void) { void x; return 0; }', 'int z(void x) { return 0; }', 'int z(int) { return 0; }', 'int v[2](int); int z(void) { return 0; }', 'int f(void)[2]; int z(void) { return 0; }', 'int f(void)(void); int z(void) { return 0; }', 'void v[2]; int z(void) { return 0; }', 'struct S; struct S v[2]; int z(void) { return 0; }',
         'int z(void) { return sizeof(void); }', 'struct S; int z(void) { return sizeof(struct S); }', 'int f(void); int z(void) { return sizeof f; }', 'int z(void) { int a = { 1, 2 }; return a; }', 'int z(void) { int v[2] = 1; return v[0]; }', 'struct S { int a; }; int z(void) { struct S s = { 1, 2 }; return 0; }', 'int z(void) { int f(void) = 1; return 0; }', 'typedef int T = 1; int z(void) { return 0; }', 'int char x; int z(void) { return 0; }', 'unsigned struct S { int a; } x; int z(void) { return 0; }', 'long long long x; int z(void) { return 0; }', 'unsigned unsigned x; int z(void) { return 0; }', 'void int x; int z(void) { return 0; }', 'int z(void) { for (typedef int T;;) { } return 0; }',
         'int x { return 0; }', 'int z(typedef int a) { return 0; }', 'typedef int z(void) { return 0; }', 'int z(void) { int x = y; return 0; }', 'int z(int a, int a) { return 0; }', 'int z(int a) { struct S { int a; int a; }; return 0; }', 'int z(void) { int x; x.y = 1; return 0; }', 'int z(void) { return 1 }', 'int z(void) { return 1;', 'int z(void { return 1; }', 'int z(void) return 1;', 'int z(void) { if return 1; }', 'int z(void) { if (1 return 1; }', 'int z(void) { while () return 1; }', 'int z(void) { for (;) return 1; }', 'int z(void) { switch (1) case: return 1; }', 'int z(void) { else return 1; }', 'int z(void) { int; return 1; }' if 0 else 'int z(void) { int 1; return 1; }', 'int z(void) { return (1; }', 'int z(void) { return 1); }', 'int z(void) { return 1 +; }', 'int z(void) { return * ; }', 'int z(void) { return a ? 1; }', 'int z(int a) { return a ? 1 : ; }', 'int z(int a) { return a[; }', 'int z(int a) { a. ; }', 'int z(int a) { a-> ; }', 'int z(int a) { a.1 ; }', 'int z(int a) { z(1,); return 0; }', 'int z(int a) { z(,1); return 0; }', 'int z(int a,) { return 0; }', 'int z(,int a) { return 0; }', 'z(void) { return 0; }', 'int z(void) { { return 0; }', 'int z(void) { return 0; } }', '}', '{', ';;' if 0 else '(', 'int', 'int x', 'int x =', 'int x = ;', 'int x = {', 'int x[', 'int x[]', 'int x[];', 'int x(', 'struct', 'struct {', 'struct S {', 'struct S { int', 'enum', 'enum {', 'enum E {', 'enum E { }; int z(void) { return 0; }', 'enum E { 1 };', 'enum E { a = }; ', 'typedef', 'typedef int', 'int z(void) { int a[-1]; return 0; }', 'int z(void) { int a[x]; return 0; }', 'int z(void) { return 0x; }', "int z(void) { return ''; }", 'int z(void) { return 1 2; }', 'int z(void) { int a b; return 0; }', 'int z(void) { return @; }', 'int z(void) { return $; }', 'int z(void) { return `; }', 'int z(void) { return #; }', 'int z(void) { return \\; }', 'int z(void) { return 1; } garbage', 'int z(void) { goto x; }', 'int z(void) { do { } while (1); }' if 0 else 'int z(void) { if (1) else return 1; }']
    for r in R:
        A(P(r, expect='reject'))
    return ps


# ---------------------------------------------------------------- C15: one name declared twice, for every kind of declaration
KINDS = ['int $', 'char $', 'long $', 'unsigned $', 'int* $', 'int $[2]', 'char $[2][3]', 'struct T $', 'struct T* $', 'struct T $[2]', 'int (*$)(int)', 'enum F $', 'U $', 'char** $', 'struct { int q; } $', 'enum { q } $']
HEAD = 'struct T { int x; int y; }; enum F { g }; typedef int U; '


def fam_dup(tier):
    ps = []
    NE2 = '@HA != @HB'
    NE3 = '@HA != @HB && @HA != @HC && @HB != @HC'
    prs = []
    for i, k in enumerate(KINDS):
        prs += [(k, l) for l in KINDS]
    prs = sorted(set(prs))
    tagged = lambda k: k.startswith(('struct {', 'enum {'))
    for k, l in prs:
        if k == l and k.startswith('enum {'):
            continue
        a, b = k.replace('$', '$A'), l.replace('$', '$B')
        ps.append(names(HEAD + 'struct S { %s; %s; }; int z(void) { return 0; }' % (a, b), 2, NE2))
        ps.append(names(HEAD + 'int z(void) { %s; %s; return 0; }' % (a, b), 2, NE2))
        ps.append(names(HEAD + '%s; %s; int z(void) { return 0; }' % (a, b), 2, NE2))
        ps.append(names(HEAD + 'int z(void) { %s; { %s; } return 0; }' % (a, b), 2, '1'))
        ps.append(names(HEAD + 'int z(void) { typedef %s; %s; return 0; }' % (a, b), 2, NE2))
        ps.append(names(HEAD + 'typedef %s; typedef %s; int z(void) { return 0; }' % (a, b), 2, NE2))
        if not tagged(k) and not tagged(l) and '[' not in k + l and 'T $' not in k + l:
            ps.append(names(HEAD + 'int z(%s, %s) { return 0; }' % (a, b), 2, NE2))
    for k in KINDS:
        a = k.replace('$', '$A')
        ps.append(names(HEAD + 'struct S { int $A; %s; int $C; }; int z(void) { return 0; }' % k.replace('$', '$B'), 3, NE3))
        ps.append(names(HEAD + 'struct S { int $A, $B; %s; }; int z(void) { return 0; }' % k.replace('$', '$C'), 3, NE3))
        ps.append(names(HEAD + 'struct { int $A; %s; } v; int z(void) { return 0; }' % k.replace('$', '$B'), 2, NE2))
        ps.append(names(HEAD + 'int z(void) { struct S { int $A; %s; } v; return 0; }' % k.replace('$', '$B'), 2, NE2))
        ps.append(names(HEAD + 'struct S { int x; struct { int $A; %s; } i; }; int z(void) { return 0; }' % k.replace('$', '$B'), 2, NE2))
        ps.append(names(HEAD + 'struct S { %s; struct { int $B; } i; }; int z(void) { return 0; }' % a, 2, '1'))
        ps.append(names(HEAD + 'int $B(void) { return 1; } %s; int z(void) { return 0; }' % a, 2, NE2))
        ps.append(names(HEAD + '%s; int $B(void) { return 1; } int z(void) { return 0; }' % a, 2, NE2))
        ps.append(names(HEAD + '%s; enum G { y, $B }; int z(void) { return 0; }' % a, 2, NE2))
        ps.append(names(HEAD + 'enum G { y, $B }; %s; int z(void) { return 0; }' % a, 2, NE2))
        ps.append(names(HEAD + 'int z(void) { %s; enum G { $B, y }; return 0; }' % a, 2, NE2))
        ps.append(names(HEAD + 'int z(void) { int $A, $B; %s; return 0; }' % k.replace('$', '$C'), 3, NE3))
        ps.append(names(HEAD + 'int $A, $B; %s; int z(void) { return 0; }' % k.replace('$', '$C'), 3, NE3))
        if not tagged(k) and '[' not in k and 'T $' not in k:
            ps.append(names(HEAD + 'int z(int $A, char* $B, %s) { return 0; }' % k.replace('$', '$C'), 3, NE3))
    # tags
    ts = ['struct $ { int x; }', 'enum $ { %s }']
    for i in range(2):
        for j in range(2):
            t, u = ts[i].replace('$', '$A').replace('%s', 'p'), ts[j].replace('$', '$B').replace('%s', 'r')
            for c in ('%s; %s; int z(void) { return 0; }', 'int z(void) { %s; %s; return 0; }', '%s v; %s; int z(void) { return 0; }', 'struct S { %s a; %s b; }; int z(void) { return 0; }', 'int z(void) { %s v; %s; return 0; }'):
                ps.append(names(c % (t, u), 2, NE2))
            ps.append(names('%s; int z(void) { %s; return 0; }' % (t, u), 2, '1'))
            ps.append(names('int z(void) { { %s; } { %s; } return 0; }' % (t, u), 2, '1'))
    return ps


# ---------------------------------------------------------------- C15: labels and jumps in nested statements
def fam_labels(tier):
    """statement trees drawn from a grammar; case labels are symbolic literals. Valid: no label outside of a switch, one default and distinct
    values per switch, break inside of a loop or switch, continue inside of a loop."""
    import random
    ps, seen = [], set()
    for seed in range(4000):
        if len(ps) >= (260 if tier == 'quick' else 1500):
            break
        r = random.Random(seed)
        lits, conds, ok = [], [], [1]

        def stmts(n, depth, sw, loop):
            return ' '.join(stmt(depth, sw, loop) for _ in range(n))

        def stmt(depth, sw, loop):
            c = r.random()
            if depth and c < 0.28:
                me = {'cases': [], 'default': 0}
                b = stmts(r.randint(1, 4), depth - 1, me, loop)
                return 'switch (a) { %s }' % b
            if depth and c < 0.42:
                b = stmts(r.randint(1, 3), depth - 1, sw, True)
                return r.choice(['while (a) { %s }', 'for (; a; a--) { %s }']) % b
            if depth and c < 0.56:
                b = stmts(r.randint(1, 2), depth - 1, sw, loop)
                return r.choice(['{ %s }', 'if (a) { %s }', 'if (a) { a--; } else { %s }']) % b
            if c < 0.72 and (sw or r.random() < 0.1):
                if len(lits) >= 3:
                    return 'a = 3;'
                k = 'KLM'[len(lits)]
                lits.append(k)
                if not sw:
                    ok[0] = 0
                else:
                    conds.extend('@K%s != @K%s' % (k, q) for q in sw['cases'])
                    sw['cases'].append(k)
                return 'case #%s:1:i#: a = 1;' % k
            if c < 0.85 and (sw or r.random() < 0.1):
                if not sw or sw['default']:
                    if r.random() < 0.5:
                        return 'a = 4;'
                    ok[0] = 0
                else:
                    sw['default'] = 1
                return 'default: a = 2;'
            if c < 0.93:
                if not (sw or loop):
                    if r.random() < 0.8:
                        return 'a = 5;'
                    ok[0] = 0
                return 'break;'
            if not loop:
                if r.random() < 0.7:
                    return 'a = 6;'
                ok[0] = 0
            return 'continue;'
        body = stmts(r.randint(1, 3), 4, None, False)
        if 'switch' not in body or body in seen or body.count('default') + len(lits) < 2 and ok[0]:
            continue
        seen.add(body)
        src = 'int z(int a) { %s return a; }' % body
        if lits:
            ps.append(P(src, accept=' && '.join(conds) or '1') if ok[0] else P(src, accept='0'))
        else:
            ps.append(P(src, expect='any' if ok[0] else 'reject'))
    return ps
