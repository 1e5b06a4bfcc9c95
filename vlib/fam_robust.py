"""C10: whatever the input bytes are, the compiler ends with an accepted program or with a diagnostic (expect='any': memory safety, exit
status, output file, acceptable assembly are checked on every path)."""
import re
from .prog import P

T = ['int f(int a) { return a + 1; }',
     'int g = 3; char s[4] = "ab"; int v[2] = { 1, 2 };',
     'struct S { int x; char* p; } t; int f(struct S* q) { return q->x - t.x; }',
     'enum E { A, B = 4 }; typedef int T; T f(T a) { return a ? A : B; }',
     "int f(char* p) { while (*p != 'z') p++; return p[0] && !p[1]; }",
     'int f(int a) { for (int i = 0; i < 9; i++) { if (a) break; else continue; } return 0x1fu; }',
     'int f(int a) { switch (a) { case 1: return 2; default: a += ~3; } return sizeof(int*); }',
     'int h(int a, long b); int f(int a) { int (*p)(int, long); p = h; return (*p)(a, -2l) << 3; }']
# every construct once, for the token-level changes
T2 = ['struct S; struct S { int m[2]; struct S* n; } s, *ps = 0; struct { char c; } u;', 'int f(void) { struct S { int a; } x = { 1 }; struct S* y = &x; return x.a + y->a + sizeof x; }',
      'typedef struct T T; struct T { T* n; }; T* g(T* t) { return t->n; }', 'unsigned long long int a, *b, c[3], d(int), (*e)(void);',
      'long x[2][3] = { { 1, 2 }, { 3 } }; char y[2][4] = { "ab", "cd" };', 'void f(int a) { int b; b = a *= 2; b <<= 3; (*&b)++; --b; if (b) { } else ; return; }',
      'int f(int a) { while (a) { switch (a) { case 0: break; default: continue; } a--; } return a; }', 'int f(char c, ...) { return (long)c || !c && ~c ^ c; }',
      'enum E { A = 1, B, } e; enum E f(enum E x) { return x == B ? A : x; }', 'int f(int a) { { int a; { int a; a = 1; } a = 2; } return a; }',
      'char* f(void) { return "a\\n\\x41\\101\\"" + 1; } int g(void) { return \'\\\'\' + \'\\0\'; }']
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|\+\+|--|->|<<=|>>=|\.\.\.|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||[^\s]')
REPL = ['x', '1', '"s"', '*', '&', '(', ')', '{', '}', '[', ']', ';', ',', '=', 'int', 'struct', 'enum', 'typedef', 'void', 'return', 'case', 'if', 'else', 'for', 'sizeof', '.', '->', '++', '-', '?', ':', '...', 'unsigned', 'long', 'char', 'default', 'break', 'while', 'switch']


def hole(c='0'):
    return {'H': ('1', c)}


HO = '\u00abH\u00bb'


def fam_bytes(tier):
    """one arbitrary byte in place of, or before, each byte of the templates"""
    ps = []
    for k, t in enumerate(T):
        for i in range(len(t)):
            ps.append(P(t[:i] + HO + t[i + 1:], expect='any', holes=hole(), tag='template %d, byte %d replaced' % (k, i)))
            if tier != 'quick' or i % 2 == 0:
                ps.append(P(t[:i] + HO + t[i:], expect='any', holes=hole(), tag='template %d, byte inserted at %d' % (k, i)))
        for i in range(0, len(t), 1 if tier != 'quick' else 3):
            ps.append(P(t[:i] + HO, expect='any', holes=hole(), tag='template %d cut at %d, one byte' % (k, i)))
    return ps


def toks(t):
    return [(m.start(), m.end()) for m in TOK.finditer(t)]


def fam_tokens(tier):
    """a token replaced by one or two arbitrary bytes, deleted, doubled, exchanged with the next one, replaced by or preceded by another one"""
    ps = []

    def add(t, tag):
        ps.append(P(t, expect='any', tag=tag))
    for k, t in enumerate(T + T2):
        ts = toks(t)
        for n, (a, b) in enumerate(ts):
            w = 'template %d, token %d ' % (k, n)
            if k >= len(T):
                ps.append(P(t[:a] + HO + t[b:], expect='any', holes=hole(), tag=w + 'replaced by a byte'))
                ps.append(P(t[:a] + ' ' + HO + ' ' + t[a:], expect='any', holes=hole(), tag=w + 'preceded by a byte'))
            if tier != 'quick' or (n + k) % 8 == 0:
                ps.append(P(t[:a] + '\u00abA\u00bb\u00abB\u00bb' + t[b:], expect='any', holes={'A': (CLS, 'x'), 'B': (CLS, 'x')}, tag=w + 'replaced by two bytes'))
            add(t[:a] + t[b:], w + 'deleted')
            add(t[:b], w + 'is the last')
            add(t[:b] + ' ' + t[a:], w + 'doubled')
            if n + 1 < len(ts):
                c, d = ts[n + 1]
                add(t[:a] + t[c:d] + ' ' + t[a:b] + t[d:], w + 'exchanged')
            for j, r in enumerate(REPL):
                if tier != 'quick' or (n + k + j) % 6 == 0:
                    add(t[:a] + ' ' + r + ' ' + t[b:], w + 'replaced by ' + r)
                    if tier != 'quick' or n % 3 == 0:
                        add(t[:a] + ' ' + r + ' ' + t[a:], w + 'preceded by ' + r)
    return ps


# two or more unknown bytes: every punctuator, white space, other bytes, letters and digits of every class (suffixes, bases, escapes, names in use)
def oneof(chars):
    return ' | '.join('(h == %d)' % ord(c) for c in chars)


CLS = oneof('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\r\0\x7f\x80\xff079afinxulLT')
CL3 = oneof('{}()[];,=*&-+.\'"\\<?:#01ax \0\xff')


def fam_short(tier):
    """texts and parts of texts of arbitrary bytes"""
    ps = []
    H = ['\u00ab%s\u00bb' % c for c in 'ABCDE']
    W = [('', ''), ('int f(int a) { ', ' }'), ('int f(int a) { return ', '; }'), ('int ', ';'), ('int v = ', ';'), ('int g(', ');'), ('struct S { ', ' } s;'), ('char* s = "', '";'), ("int c = '", "';"), ('enum E { ', ' };'), ('int f(int a) { a', '; }'), ('int f(int* a) { return a', 'a; }'), ('int v[2] = { ', ' };'), ('int n = 0', ';'), ('int n = 1', ';'), ('int f(int a) { switch (a) { ', ' } return 0; }'), ('int f(int a) { for (', ') ; return 0; }'), ('typedef int T; T ', ' T;')]
    for i, (pre, post) in enumerate(W):
        for k in range(0, 3 if tier == 'quick' and i % 2 else 4):
            c = '1' if k < 2 or tier != 'quick' and k < 3 else CL3 if tier == 'quick' and k == 3 else CLS
            ps.append(P(pre + ''.join(H[:k]) + post, expect='any', holes={x: (c, 'x') for x in 'ABCDE'[:k]}, tag='%s<%d bytes>%s' % (pre, k, post)))
    return ps
