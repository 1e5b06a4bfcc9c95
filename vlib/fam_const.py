"""C14: constants in declarations and statements: enumerators, array sizes, case labels, for all values of the literals."""
from .prog import P


def fam_const(tier):
    ps = []
    A = ps.append
    MAXI = '2147483647'
    # enumerators
    A(P('enum E { A = #K:10:i# }; int @f(int a) { return A; }', ref='int @f(int a) { return @KK; }'))
    A(P('enum E { A = #K:10:i# }; long @f(long a) { return a + A; }', ref='long @f(long a) { return a + (int)@KK; }'))
    A(P('enum E { A = #K:10:i#, B }; int @f(int a) { return a ? A : B; }', accept='@KK < ' + MAXI, ref='int @f(int a) { return a ? @KK : @KK + 1; }'))
    A(P('enum E { Z, A = #K:5:i#, B, C, D = #L:5:i#, E1, F }; int @f(int a) { return a == 0 ? Z : a == 1 ? A : a == 2 ? B : a == 3 ? C : a == 4 ? D : a == 5 ? E1 : F; }', ref='int @f(int a) { int k = @KK, l = @KL; return a == 0 ? 0 : a == 1 ? k : a == 2 ? k + 1 : a == 3 ? k + 2 : a == 4 ? l : a == 5 ? l + 1 : l + 2; }'))
    for t in ('l', 'L', 'q', 'Q', 'I'):
        suf = {'l': 'l', 'L': 'ul', 'q': 'll', 'Q': 'ull', 'I': 'u'}[t]
        n = 10 if t == 'I' else 19
        if t in 'lq':
            A(P('enum E { A = #K:%d:%s:d:%s# }; int @f(int a) { return A; }' % (n, t, suf), accept='@KK <= ' + MAXI, ref='int @f(int a) { return @KK; }'))
    A(P('enum E { A = #K:18:l# }; int z(void) { return A; }', accept='@KK <= ' + MAXI))
    A(P('enum E { A = 3 } @g; int @f(int a) { enum E e; e = A; @g = e; return e + a; }', globs='g', ref='int @g; int @f(int a) { @g = 3; return 3 + a; }'))
    A(P('int @f(int a) { enum E { A = #K:9:i# }; { enum E { A = #L:9:i#, B }; a += A - B; } return a + A; }', ref='int @f(int a) { return a - 1 + @KK; }'))
    A(P("enum E { A = '\u00abA\u00bb', B }; int @f(int a) { return A * 1000 + B; }", holes={'A': ("h > 31 && h < 127 && h != '\\'' && h != '\\\\'", 'x')}, ref='int @f(int a) { return @HA * 1000 + @HA + 1; }'))
    for op in ('+', '*', '<', '&', '<<'):
        A(P('enum E { A = #K:4:i# }; int @f(int a) { return a %s A; }' % op, pre='a >= 0 && a < 1000', lpre='@KK < 8' if op == '<<' else '1', ref='int @f(int a) { return a %s (int)@KK; }' % op))
    A(P('enum E { A = #K:4:i# }; int @f(int a) { switch (a) { case A: return 1; default: return 2; } }', ref='int @f(int a) { return a == @KK ? 1 : 2; }', expect='maybe'))
    A(P('enum E { A = #K:1:i# }; int @f(int a) { int v[A]; v[0] = a; return v[0] + sizeof v; }', lpre='@KK > 0', ref='int @f(int a) { return a + 4 * @KK; }', expect='maybe'))
    # enumerators initialise and compare like ints
    A(P('enum E { A = #K:10:i# }; int @g = 1; int @f(int a) { int b = A; long c = A; char d = A; unsigned e = A; return (b == A) + (c == A) * 2 + (d == (char)A) * 4 + (e == A) * 8 + sizeof(A) * 16; }', globs='g', ref='int @g = 1; int @f(int a) { return 15 + 64; }'))
    # array sizes (through pointers: no storage of symbolic size)
    for t, n in (('char', 1), ('int', 4), ('long', 8), ('char*', 8)):
        big = {1: MAXI, 4: '500000000', 8: '250000000'}[n]
        for d in (3, 9):
            A(P('int @f(int a) { %s (*p)[#K:%d:i#]; return sizeof(*p); }' % (t, d), lpre='@KK > 0 && @KK < ' + big, ref='int @f(int a) { return @KK * %d; }' % n))
        A(P('long @f(long a) { %s (*p)[#K:3:i#]; p = (%s (*)[3])a; return (long)(p + 1) - a; }'.replace('(%s (*)[3])a', '@conv(a)') % (t,), expect='any') if 0 else
          P('struct @S { char h; %s v[#K:3:i#]; char e; }; int @f(struct @S* p) { return sizeof(struct @S); }' % t, lpre='@KK > 0 && @KK < 400', buf=1, ref='struct @S { int x; }; int @f(struct @S* p) { int n = %d; int o = n + @KK * n; return (o + 1 + n - 1) / n * n; }' % n))
        A(P('struct @S { char h; %s v[#K:2:i#]; char e; };\nint @f(struct @S* p) { char* q = &p->e; char* b = &p->h; return q - b; }' % t, lpre='@KK > 0', buf=1, ref='', expect='any') if 0 else
          P('int @f(int a) { %s (*p)[#K:2:i#][#L:2:i#]; return sizeof(*p) + sizeof((*p)[0]) + sizeof((*p)[0][0]); }' % t, lpre='@KK > 0 && @KL > 0', ref='int @f(int a) { return @KK * @KL * %d + @KL * %d + %d; }' % (n, n, n)))
    for k, (t, n) in enumerate((('char', 1), ('int', 4), ('long', 8))):
        A(P('long @f(%s* b) { %s (*p)[#K:3:i#]; %s (*q)[#K:3:i#]; q = p; q = p + 1; return 0; }' % (t, t, t), lpre='@KK > 0', ref='long @f(%s* b) { return 0; }' % t))
        A(P('%s @f(%s* b, int i) { struct S { %s a[#K:1:i#]; %s c; }; struct S* s; s = (struct S*)b; return s->c; }' % (t, t, t, t), buf=10, lpre='@KK > 0', ref='%s @f(%s* b, int i) { return b[@KK]; }' % (t, t)))
        A(P('%s @f(%s* b, int i) { struct S { %s a[#K:1:i#]; %s c[2]; }; struct S* s; s = (struct S*)b; return s->c[i]; }' % (t, t, t, t), buf=11, lpre='@KK > 0', pre='i == 0 || i == 1', ref='%s @f(%s* b, int i) { return b[@KK + i]; }' % (t, t)))
    for t in ('I', 'l', 'L'):
        suf = {'I': 'u', 'l': 'l', 'L': 'ul'}[t]
        A(P('int @f(int a) { int (*p)[#K:3:%s:d:%s#]; return sizeof(*p); }' % (t, suf), lpre='@KK > 0', ref='int @f(int a) { return @KK * 4; }', expect='maybe'))
    A(P('int @f(int a) { char (*p)[#K:12:l:d:l#]; return sizeof(*p) == a; }', lpre='@KK > 4294967295', expect='maybe', ref='int @f(int a) { return @KK == a; }'))
    A(P('int @f(int a) { int (*p)[#K:10:i#]; return sizeof(*p) == a; }', lpre='@KK > 536870911', expect='maybe', ref='int @f(int a) { return (long)@KK * 4 == a; }'))
    # case labels: every type of the controlling expression, every literal type
    for t, c in (('char', 'c'), ('int', 'i'), ('unsigned', 'I'), ('long', 'l'), ('unsigned long', 'L'), ('long long', 'q'), ('unsigned long long', 'Q')):
        prom = 'int' if t == 'char' else t
        for lt, suf, n in (('i', '', 10), ('I', 'u', 10), ('l', 'l', 19), ('L', 'ul', 19), ('l', '', 18), ('q', 'll', 19), ('Q', 'ull', 19)):
            if tier == 'quick' and t in ('long long', 'unsigned long long') and lt not in 'iL':
                continue
            A(P('int @f(%s a) { switch (a) { case #K:%d:%s:d:%s#: return 1; default: return 2; } }' % (t, n, lt, suf), expect='maybe' if lt in 'ILQ' else 'ok', ref='int @f(%s a) { %s b = a; return b == (%s)@KK ? 1 : 2; }' % (t, prom, prom)))
        A(P('int @f(%s a) { switch (a) { case #K:10:i#: return 1; case #L:10:i#: return 2; case 3: return 3; } return 4; }' % t, accept='@KK != @KL && @KK != 3 && @KL != 3', ref='int @f(%s a) { %s b = a; return b == (%s)@KK ? 1 : b == (%s)@KL ? 2 : b == 3 ? 3 : 4; }' % (t, prom, prom, prom)))
        A(P("int @f(%s a) { switch (a) { case '\u00abA\u00bb': return 1; } return 4; }" % t, holes={'A': ("h > 31 && h != '\\'' && h != '\\\\'", 'x')}, ref='int @f(%s a) { %s b = a; return b == (%s)(signed char)@HA ? 1 : 4; }' % (t, prom, prom)))
    A(P('int @f(unsigned a) { switch (a) { case #K:10:I:d:u#: return 1; case #L:10:I:d:u#: return 2; } return 4; }', lpre='@KK != @KL', expect='maybe', ref='int @f(unsigned a) { return a == @KK ? 1 : a == @KL ? 2 : 4; }'))
    A(P('int @f(int a) { switch (a) { case #K:18:l#: return 1; case #L:18:l#: return 2; } return 4; }', accept='(unsigned)@KK != (unsigned)@KL', ref='int @f(int a) { return a == (int)@KK ? 1 : a == (int)@KL ? 2 : 4; }'))
    A(P('int @f(long a) { switch (a) { case #K:18:l#: return 1; case #L:18:l#: return 2; } return 4; }', accept='@KK != @KL', ref='int @f(long a) { return a == @KK ? 1 : a == @KL ? 2 : 4; }'))
    A(P('int @f(unsigned long a) { switch (a) { case #K:20:L:d:ul#: return 1; case #L:20:L:d:ul#: return 2; } return 4; }', lpre='@KK != @KL', expect='maybe', ref='int @f(unsigned long a) { return a == @KK ? 1 : a == @KL ? 2 : 4; }'))
    return ps
