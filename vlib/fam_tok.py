"""C11: text is split into the tokens C defines: white space, maximal munch, keywords, identifiers."""
import re
from .prog import P
from .fam_robust import TOK, oneof

WS = oneof(' \t\n\v\f')
IDC = "(h >= 'a' && h <= 'z') || (h >= 'A' && h <= 'Z') || (h >= '0' && h <= '9') || h == '_'"
IDS = "(h >= 'a' && h <= 'z') || (h >= 'A' && h <= 'Z') || h == '_'"

PROGS = ['int @f(int a) { return a + 1; }', 'int @f(int a, int b) { if (a < b) return a - b; else return a << (b & 7); }',
         'int @f(int a, int b) { int c = 3; while (a > 0 && c) { a = a >> 1; c--; } return a * b + c; }', 'struct @S { int x; char y; }; int @f(int a) { struct @S s; s.x = a; s.y = a; struct @S* p; p = &s; return p->x + p->y; }',
         'int @g; int @f(int a) { for (int i = 0; i < 2; i++) { @g += a; } switch (a) { case 1: return 5; default: break; } return @g ? ~a : !a; }',
         'enum @E { @A, @B = 7 }; typedef int @T; int @f(int a) { @T c = a; return c == @B ? sizeof(long) : @A; }', 'int @f(int a) { char* s = "x y"; return s[a & 1] + \'z\'; }',
         'unsigned long @f(unsigned long a) { a ^= 5; a |= 0x10ul; return a & 077; }', 'int @f(int a) { int v[2] = { 1, 2 }; v[0] = (a); return v[0] * v[1]; }']
MUNCH = ['a+++b', 'a---b', 'a+ ++b', 'a- --b', 'a-- -b', 'a++ +b', 'a&&b', 'a& &b', 'a&b', 'a||b', 'a|b', 'a<<b%8', 'a<b', 'a<=b', 'a>>b%8', 'a>b', 'a>=b', 'a==b', 'a!=b', 'a= =b', 'a=!b', 'a=-b', 'a=~b', 'a=+b', 'a=b==b', 'a=b!=a', 'a=b<=a', 'a=b>=a', 'a<-b', 'a>-b', 'a<!b', 'a>~b', 'a-!b', 'a+-b', 'a-+b', 'a+~b', 'a*-b', 'a%-(b|1)', 'a/-(b|1)', 'a&-b', 'a&~b', 'a&!b', 'a|-b', 'a|!b', 'a^-b', 'a^~b', 'a^!b',
         'a&&-b', 'a&&!b', 'a||!b', 'a||~b', 'a==-b', 'a!=!b', 'a!=-b', '!!a', '~~a', '-~a', '!~a', '-(-a)', '- -a', '+ +a', '-+a', '+-a', '~!a', 'a?-b:+b', 'a?b:-1', 'a?b:b?1:2', 'a>b?a:b', 'a-->b', 'a-->-b', 'a++<b', 'a--<b', 'a++==b', 'a+=b', 'a-=b', 'a*=b', 'a&=b', 'a|=b', 'a^=b', 'a<<=1', 'a>>=1', 'a/=3', 'a%=3', 'a+=-b', 'a-=-b', 'a=-1', 'a*=-b', 'a&=~b', 'a|=~b', 'a^=!b', 'a<<=b==b', 'a>>=!b', 'a<<1<b', 'a>>1>b', 'a<b<<1', 'a>b>>1', 'a<<1<=b', 'a>>1>=b', 'a&b&&b', 'a&&b&b', 'a|b||b', 'a||b|b', 'a&&b||b', '*p', '*&a', '&*p==p', 'a**p', 'a&*p', 'a&&*p', 'a-*p', 'a+*p', 'a**p**p', '-*p', '!*p', '~*p', '*p++', '(*p)++', '++*p', '*p+++b', '*p---b', '--*p', 'a=*p', 'a=*&b', 's.x', 's.x+s.y', 'q->x', 'q->x-q->y', 'q->x--', 'q->x--> b', 'a-q->x', 'a>q->x', 'a--- -b', 'a<b==b>a', '1?2:3', 'a?1:2?3:4', '(a)', '((a))', '(a)+(b)', '(int)-a', '(char)~a', '(long)!a', 'sizeof(a)', 'sizeof a', 'sizeof(int)', 'sizeof-a', 'sizeof(a)-1', '-sizeof(a)', 'a-1', 'a -1', 'a- 1', 'a+1', '0x1f+a', '1u-a', '07+a', "'a'+a", "a+'a'", "'a'-'b'", '"ab"[1]', '*"ab"', '1+2*3', '1-2-3', '1-(-2)', '10/3%2']
# operators of one and two characters between two operands, every byte pair
AB = "!\"#$%&'()*+,-./:<=>?@[\\]^`{|}~ "


def fam_tok(tier):
    ps = []
    for k, t in enumerate(PROGS):
        sp = [m.start() for m in re.finditer(' ', t) if not t[:m.start()].endswith('"x')]
        for i in sp:
            ps.append(P(t[:i] + '\u00abA\u00bb' + t[i + 1:], holes={'A': (WS, ' ')}, ref=t, globs='g' if k == 4 else '', tag='white space at %d of %s' % (i, t)))
        # between all tokens, before the first and behind the last one
        q = '«A»«B»'
        gaps = sorted(set([0, len(t)] + [b for a, b in [(m.start(), m.end()) for m in re.finditer(r'@\w+|' + TOK.pattern, t)]]))
        s = t
        for g in reversed(gaps):
            s = s[:g] + '\u00abA\u00bb\u00abB\u00bb' + s[g:]
        ps.append(P(s, holes={'A': (WS, ' '), 'B': (WS, ' ')}, ref=t, globs='g' if k == 4 else '', tag='white space everywhere in ' + t))
        # nothing but the separators that are needed
        m = re.sub(r'"[^"]*"|\'[^\']*\'| ?([^\w\s@"\']) ?', lambda x: x.group(1) or x.group(0), t)
        m = re.sub(r' (?=["\'])|(?<=["\']) ', '', m) if '"' not in m else m
        ps.append(P(m, globs='g' if k == 4 else '', tag='no white space: ' + m, ref=t))
    pre = 'struct @S { int x; int y; };\n'
    for e in MUNCH:
        ps.append(P(pre + 'int @f(int a, int b) { struct @S s; s.x = a; s.y = b; struct @S* q; q = &s; int v[2]; v[0] = b; v[1] = a; int* p; p = v; return %s; }' % e if not re.match(r'a ?[-+*/%&|^<>]{0,2}=[^=]', e) or e == 'a= =b' else pre + 'int @f(int a, int b) { int v[2]; v[0] = b; v[1] = a; int* p; p = v; %s; return a; }' % e,
                    pre='b >= 1 && b <= 1000 && a >= -1000 && a <= 1000', expect='reject' if e in ('a= =b', 'a& &b') else 'ok', tag='munch ' + e)
                  if e not in ('a& &b', 'a= =b') else P('int z(int a, int b) { return %s; }' % e, expect='reject'))
    # every two bytes between two operands: single binary operator, binary + unary operator, white space; all others are no programs
    val = ("static int @bin(int o, int a, int b) { switch (o) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return b ? a / b : 0; case '%': return b ? a % b : 0; case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<': return a < b; case '>': return a > b; } return 0; }\n"
           "static int @isb(int o) { return o == '+' || o == '-' || o == '*' || o == '/' || o == '%' || o == '&' || o == '|' || o == '^' || o == '<' || o == '>'; }\n"
           "static int @two(int x, int y) { return x == '<' && y == '<' ? 1 : x == '>' && y == '>' ? 2 : x == '<' && y == '=' ? 3 : x == '>' && y == '=' ? 4 : x == '=' && y == '=' ? 5 : x == '!' && y == '=' ? 6 : x == '&' && y == '&' ? 7 : x == '|' && y == '|' ? 8 : y == '=' && @isb(x) ? 9 : 0; }\n"
           "static int @un(int x, int y) { return @isb(x) && (y == '~' || y == '!' || y == '+' && x != '+' || y == '-' && x != '-') || x == '=' && (y == '~' || y == '!' || y == '+' || y == '-'); }\n"
           "static int @acc(int x, int y) { return @two(x, y) || @un(x, y) || x == ' ' && (@isb(y) || y == '=') || y == ' ' && (@isb(x) || x == '='); }\n")
    ref = (val + 'int @f(int a, int b) { int x = @HA, y = @HB, r; switch (@two(x, y)) { case 1: return a << b; case 2: return a >> b; case 3: return a <= b; case 4: return a >= b; case 5: return a == b; case 6: return a != b; case 7: return a && b; case 8: return a || b; case 9: return @bin(x, a, b); }'
                 ' if (x == \' \') return y == \'=\' ? b : @bin(y, a, b); if (y == \' \') return x == \'=\' ? b : @bin(x, a, b); r = y == \'~\' ? ~b : y == \'!\' ? !b : y == \'-\' ? -b : b; return x == \'=\' ? r : @bin(x, a, r); }').replace('@bin', '@rbin').replace('@isb', '@risb').replace('@two', '@rtwo').replace('@un', '@run').replace('@acc', '@racc')
    for x in AB:
        ps.append(P('int @f(int a, int b) { return a\u00abA\u00bb\u00abB\u00bbb; }', pre="a >= 0 && a <= 100 && b >= 1 && b <= 9 && !(@HB == '!' && (@HA == '/' || @HA == '%'))", holes={'A': ('h == %d' % ord(x), x), 'B': (oneof(AB), ' ')}, accept='@acc(@HA, @HB)', ref=ref, chelp=val, tag='all operators that start with ' + x))
    # keywords: one changed letter makes an identifier
    kw = {'break': 'int z(int a) { while (a) { break; } return 0; }', 'case': 'int z(int a) { switch (a) { case 1: return 0; } return 1; }', 'char': 'char z(int a) { return a; }', 'continue': 'int z(int a) { while (a) { continue; } return 0; }', 'default': 'int z(int a) { switch (a) { default: return 0; } return 1; }',
          'else': 'int z(int a) { if (a) return 1; else return 0; }', 'enum': 'enum E { A } e;', 'for': 'int z(int a) { for (;a;) a = 0; return 0; }', 'if': 'int z(int a) { if (a) return 1; return 0; }', 'int': 'int z(void);', 'long': 'long z(void);', 'return': 'int z(int a) { return a; }', 'sizeof': 'int z(int a) { return sizeof(int); }',
          'struct': 'struct S { int a; } s;', 'switch': 'int z(int a) { switch (a) { default: return 0; } return 1; }', 'typedef': 'typedef int T; T a;', 'unsigned': 'unsigned z(void);', 'void': 'void z(void);', 'while': 'int z(int a) { while (a) a = 0; return 0; }'}
    for w, t in kw.items():
        i = t.index(w)
        for j in range(len(w)):
            ps.append(P(t[:i + j] + '\u00abA\u00bb' + t[i + j + 1:], holes={'A': (IDC, w[j])}, accept="@HA == '%s'" % w[j], tag='letter %d of %s' % (j, w)))
        ps.append(P(t[:i] + '\u00abA\u00bb' + t[i:], holes={'A': (IDS, 'x')}, accept='0', tag='letter before ' + w))
        ps.append(P(t[:i + len(w)] + '\u00abA\u00bb' + t[i + len(w):], holes={'A': (IDC, 'x')}, accept='0', tag='letter behind ' + w) if w not in ('sizeof', 'if') or 1 else None)
        # a keyword is no name, but every longer, shorter or capitalised word is one
        ps.append(P('int z(int %s) { return 0; }' % w, expect='reject'))
        for v in (w + 'x', w + '_', w + '1', 'x' + w, '_' + w, w[:-1], w[1:], w.upper(), w.capitalize()):
            if v not in kw and v not in ('do', 'i', 'f', 'a'):
                ps.append(P('int @f(int p) { int %s = p; return %s + 1; }' % (v, v), tag='name ' + v))
    # identifiers: every character, every length, significant in all characters
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65) if tier == 'quick' else tuple(range(1, 70)) + (127, 128, 129, 255, 256, 257):
        nm = ('abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' * 5)[10:10 + n]
        for j in sorted(set([0, n // 2, n - 1])):
            a = nm[:j] + '\u00abA\u00bb' + nm[j + 1:]
            b = nm[:j] + 'q' + nm[j + 1:]
            hs = {'A': (IDS if j == 0 else IDC, 'x')}
            ps.append(P('int @f(int p1, int p2) { int %s = p1; int %s = p2; return %s - %s * 3; }' % (a, b, a, b), holes=hs, accept="@HA != 'q'", ref='int @f(int p1, int p2) { return p1 - p2 * 3; }', tag='names of length %d, position %d' % (n, j)))
        ps.append(P('int @%s = 3; int @%sz = 4; int @f(int p) { @%s += p; @%sz -= p; return @%s; }' % ((nm,) * 5), globs='%s %sz' % (nm, nm), tag='global name of length %d' % n))
        ps.append(P('int @%s(int p) { return p + 1; } int @%sz(int p) { return p - 1; } int @f(int p) { return @%s(p) * 3 + @%sz(p); }' % ((nm,) * 4), tag='function name of length %d' % n))
    return ps
