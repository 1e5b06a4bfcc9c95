"""C07: integer, character and string literals: the bytes of the literal are symbolic in the source text."""
from .prog import P

DEC, OCT = "h >= '0' && h <= '9'", "h >= '0' && h <= '7'"
HEX = "(h >= '0' && h <= '9') || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F')"
# a raw byte of a string or character constant. Byte 7 is emitted as \a, which the assembler does not know: known finding
RAW = "h != 0 && h != 7 && h != '\"' && h != '\\'' && h != '\\\\' && h != 10"
ESC = "h == 'n' || h == 't' || h == 'b' || h == 'f' || h == 'r' || h == 'v' || h == '\\\\' || h == '\\'' || h == '\"' || h == '?'"
ESCV = "(@HA == 'n' ? 10 : @HA == 't' ? 9 : @HA == 'b' ? 8 : @HA == 'f' ? 12 : @HA == 'r' ? 13 : @HA == 'v' ? 11 : @HA)"


# a byte that may or may not continue an escape sequence or end the constant
NXT = "h == '0' || h == '3' || h == '7' || h == '8' || h == '9' || h == 'a' || h == 'F' || h == 'g' || h == 'n' || h == 'x' || h == ' ' || h == 'u' || h == '%'"


def hv(n):
    return "(@H%s <= '9' ? @H%s - '0' : (@H%s | 32) - 'a' + 10)" % (n, n, n)


def dv(n):
    return "(@H%s - '0')" % n


def chars():
    """(text of the constant's inside, holes, values of its characters)"""
    d = lambda c, s='0': (c, s)
    raw = d(RAW, 'x')
    nxt = d(NXT)
    return [
        ('«A»', {'A': raw}, ['@HA']),
        ('«A»«B»', {'A': raw, 'B': nxt}, ['@HA', '@HB']),
        ('\\«A»', {'A': d(ESC, 'n')}, [ESCV]),
        ('\\«A»«B»', {'A': d(ESC, 'n'), 'B': nxt}, [ESCV, '@HB']),
        ('\\«A»', {'A': d(OCT + ' && h != 7 + 48')}, [dv('A')]),
        ('\\«A»«B»', {'A': d(OCT), 'B': d(OCT + " && !(@HA == '0' && h == '7')")}, ['%s * 8 + %s' % (dv('A'), dv('B'))]),
        ('\\«A»«B»«C»', {'A': d("h >= '0' && h <= '3'"), 'B': d(OCT), 'C': d(OCT + " && !(@HA == '0' && @HB == '0' && h == '7')")}, ['%s * 64 + %s * 8 + %s' % (dv('A'), dv('B'), dv('C'))]),
        ('\\«A»«B»«C»«D»', {'A': d("h >= '0' && h <= '3'"), 'B': d(OCT), 'C': d(OCT + " && !(@HA == '0' && @HB == '0' && h == '7')"), 'D': nxt}, ['%s * 64 + %s * 8 + %s' % (dv('A'), dv('B'), dv('C')), '@HD']),
        ('\\«A»«B»', {'A': d("h >= '0' && h <= '6'"), 'B': d("(%s) && !(h >= '0' && h <= '7')" % NXT, 'x')}, [dv('A'), '@HB']),
        ('\\x«A»', {'A': d(HEX + " && h != '7'").__class__(("(" + HEX + ") && h != '7'", '0'))}, [hv('A')]),
        ('\\x«A»«B»', {'A': d(HEX), 'B': d("(%s) && !(@HA == '0' && h == '7')" % HEX)}, ['%s * 16 + %s' % (hv('A'), hv('B'))]),
        ('\\x«A»«B»', {'A': d("(%s) && h != '7'" % HEX), 'B': d("(%s) && !(%s)" % (NXT, HEX), 'x')}, [hv('A'), '@HB']),
        ('\\x0«A»«B»', {'A': d(HEX), 'B': d("(%s) && !(@HA == '0' && h == '7')" % HEX)}, ['%s * 16 + %s' % (hv('A'), hv('B'))]),
        ('\\x00«A»«B»', {'A': d(HEX), 'B': d("(%s) && !(@HA == '0' && h == '7')" % HEX)}, ['%s * 16 + %s' % (hv('A'), hv('B'))]),
    ]


def fam_chars(tier):
    ps = []
    for body, holes, vals in chars():
        n = len(vals)
        # string as an array initializer: every byte of the image
        sig = 'int @f(void) { return 0; }'
        few = tier == 'quick' and len(holes) > 1
        for size in ((n + 1,) if few else (n, n + 1, n + 3)):
            ps.append(P('char @g[%d] = "%s";\n' % (size, body) + sig, globs='g', holes=holes, ref='char @g[%d];\n' % size + sig, setup=' '.join('@g[%d] = (char)(%s);' % (i, v) for i, v in enumerate(vals))))
            if few and len(holes) > 2:
                continue
            ps.append(P('char @g[%d];\nvoid @f(void) { char v[%d] = "%s"; int i; for (i = 0; i < %d; i++) @g[i] = v[i]; }' % (size, size, body, size), globs='g', sym='g', holes=holes,
                        ref='char @g[%d];\nvoid @f(void) { int i; for (i = 0; i < %d; i++) @g[i] = 0; %s }' % (size, size, ' '.join('@g[%d] = (char)(%s);' % (i, v) for i, v in enumerate(vals)))))
        # string as an array of static storage: contents, terminator, size
        sel = ''.join('a == %d ? (char)(%s) : ' % (i, v) for i, v in enumerate(vals)) + '0'
        ps.append(P('char @f(int a) { return "%s"[a]; }' % body, pre='a >= 0 && a <= %d' % n, holes=holes, ref='char @f(int a) { return %s; }' % sel))
        if not few:
            ps.append(P('char @f(int a) { char* s = "%s"; return *(s + a); }' % body, pre='a >= 0 && a <= %d' % n, holes=holes, ref='char @f(int a) { return %s; }' % sel))
            if n == 1 and body != '«A»':
                ps.append(P('int @f(void) { return sizeof("%s"); }' % body, holes=holes, ref='int @f(void) { return %d; }' % (n + 1)))
            ps.append(P('char @f(int a) { char* s = "pre"; char* t = "%s"; char* u = "post"; return t[a] + s[1] * 3 + u[3] * 5; }' % body, pre='a >= 0 && a <= %d' % n, holes=holes, ref="char @f(int a) { char q = %s; return q + 'r' * 3 + 't' * 5; }" % sel))
            ps.append(P('char @f(int a) { return ("%s" "")[a]; }'.replace(' ""', '') % ('z' + body + 'y' if not body.startswith('\\x') and 'x' not in body else 'z' + body), pre='a >= 1 && a <= %d' % n, holes={k: (v[0], v[1]) for k, v in holes.items()}, ref='char @f(int a) { a = a - 1; return %s; }' % sel)
                      if not (body.endswith('»') and len(holes) and body.startswith('\\') and len(vals) == 1) else P('char @f(int a) { return "z%s"[a]; }' % body, pre='a >= 1 && a <= %d' % n, holes=holes, ref='char @f(int a) { a = a - 1; return %s; }' % sel))
        # character constants
        if n == 1:
            cv = '((char)(%s))' % vals[0]
            ps.append(P("int @f(void) { return '%s'; }" % body, holes=holes, ref='int @f(void) { return %s; }' % cv))
            if few:
                continue
            ps.append(P("long @f(long a) { return a - '%s'; }" % body, holes=holes, ref='long @f(long a) { return a - %s; }' % cv))
            ps.append(P("int @f(char a) { return a == '%s'; }" % body, holes=holes, ref='int @f(char a) { return a == %s; }' % cv))
            ps.append(P("int @f(void) { return sizeof('%s'); }" % body, holes=holes, ref='int @f(void) { return 4; }'))
            ps.append(P("int @f(int a) { switch (a) { case '%s': return 1; default: return 2; } }" % body, holes=holes, ref='int @f(int a) { return a == %s ? 1 : 2; }' % cv))
            for t in ('char', 'int', 'unsigned', 'long'):
                ps.append(P("%s @g = '%s';\n" % (t, body) + sig, globs='g', holes=holes, ref='%s @g;\n' % t + sig, setup='@g = %s;' % cv))
    # all escapes at once, long strings, many strings
    al = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\?@')
    ps.append(P('char @f(int a) { return "%s"[a]; }' % al, pre='a >= 0 && a <= %d' % len(al)))
    ps.append(P('char @f(int a) { return "\\b\\t\\n\\v\\f\\r\\"\\\'\\?\\\\\\0\\1\\12\\123\\x1\\x1g\\377"[a]; }', pre='a >= 0 && a < 18'))
    for n in (16, 31, 32, 33, 47, 48, 63, 64, 127, 150):
        ps.append(P('char @f(int a) { return "%s"[a]; }' % ('abcdefghijklmnopqrstuvwxyz' * 8)[:n], pre='a >= 0 && a <= %d' % n))
    ps.append(P('char @f(int a, int b) { char* t[20] = { %s }; return t[a][b]; }' % ', '.join('"%c%d"' % (97 + i, i * 7) for i in range(20)), pre='a >= 0 && a < 20 && b >= 0 && b < 2'))
    ps.append(P('char* @g(int a) { switch (a) { case 0: return "zero"; case 1: return "one"; } return "many"; }\nchar @f(int a, int b) { return @g(a)[b]; }', pre='b >= 0 && b < 4'))
    ps.append(P('char* @g(int a) { return a ? "yes" : "no"; }\nchar @f(int a, int b) { return @g(a)[b]; }', pre='b >= 0 && b < 3'))
    ps.append(P('int @f(void) { char* s = "abc"; int n = 0; while (*s) { n++; s++; } return n; }'))
    # \a: known finding
    ps.append(P('char @f(int a) { return "\\a"[a]; }', pre='a >= 0 && a < 2'))
    return ps


SUFFIX = {'': 'sdl', 'u': 'u', 'U': 'u', 'l': 'l', 'L': 'l', 'ul': 'ul', 'uL': 'ul', 'lu': 'ul', 'LU': 'ul', 'll': 'l', 'LL': 'l', 'ull': 'ul', 'ULL': 'ul', 'llu': 'ul', 'LLU': 'ul', 'Ul': 'ul', 'LLu': 'ul'}


def fam_ints(tier):
    """one digit of the literal is symbolic, at every position; the digits around it put the value next to the bounds of the types"""
    ps = []
    DECS = ['7', '10', '255', '4096', '65535', '999999999', '2147483647', '2147483650', '4294967295', '4294967300', '12345678901', '281474976710656', '9223372036854775807', '9223372036854775799']
    UDEC = ['9223372036854775808', '18446744073709551615', '18446744073709551599']
    HEXS = ['0', 'f', '1B', 'ff', '7fff', 'FFff', '123456', '7fffffff', '80000000', 'ffffffff', '100000000', 'abcDEF012345', '7fffffffffffffff', '8000000000000000', 'ffffffffffffffff', '0000000000000001f']
    OCTS = ['7', '10', '377', '177777', '17777777777', '20000000000', '37777777777', '40000000000', '777777777777777777777', '1000000000000000000000', '1777777777777777777777', '0012']
    n = 0
    for base, pre, digs, lits in [(10, '', DEC, DECS + UDEC), (16, '0x', HEX, HEXS), (16, '0X', HEX, HEXS[3:9]), (8, '0', OCT, OCTS)]:
        for lit in lits:
            for suf, cls in SUFFIX.items():
                if lit in UDEC and cls not in ('u', 'ul'):
                    continue
                for pos in range(len(lit)):
                    n += 1
                    if n % (17 if tier == 'quick' else 3) and not (pos == len(lit) - 1 and suf == ''):
                        continue
                    rest = lit[:pos] + '0' + lit[pos + 1:]
                    w = base ** (len(lit) - 1 - pos)
                    lim = 2**64 - 1 if cls in ('u', 'ul') or base != 10 else 2**63 - 1
                    maxd = min(base - 1, (lim - int(rest, base)) // w)
                    c = digs
                    if base == 10 and pos == 0:
                        c = "h >= '1' && h <= '9'"
                    if maxd < base - 1:
                        c = "h >= '%s' && h <= '%d'" % ('1' if base == 10 and pos == 0 else '0', min(maxd, 9))
                    h = {'D': (c, lit[pos])}
                    R = 'unsigned long long v = %dull + %dull * %s; ' % (int(rest, base), w % 2**64, hv('D') if base == 16 else dv('D'))
                    body = pre + lit[:pos] + '«D»' + lit[pos + 1:] + suf
                    if cls == 'sdl':  # the type by 6.4.4.1: size and signedness
                        size = 'v <= 2147483647ull ? 4 : %s8' % ('' if base == 10 else 'v <= 4294967295ull ? 4 : ')
                        uns = '0' if base == 10 else '(v > 2147483647ull && v <= 4294967295ull) || v > 9223372036854775807ull'
                    elif cls == 'u':
                        size, uns = 'v <= 4294967295ull ? 4 : 8', '1'
                    elif cls == 'l':
                        size, uns = '8', '0' if base == 10 else 'v > 9223372036854775807ull'
                    else:
                        size, uns = '8', '1'
                    k = n // 17 if tier == 'quick' else -1
                    if k in (-1, k - k % 3):
                        ps.append(P('unsigned long long @f(void) { return %s; }' % body, holes=h, ref='unsigned long long @f(void) { %sreturn v; }' % R))
                    if k in (-1, k - k % 3 + 1) or suf == '':
                        ps.append(P('int @f(void) { return sizeof(%s) + (-%s < 0); }' % (body, body), holes=h, ref='int @f(void) { %sreturn (%s) + ((%s) ? 0 : v != 0); }' % (R, size, uns)) if False else
                                  P('int @f(void) { return sizeof(%s); }' % body, holes=h, ref='int @f(void) { %sreturn %s; }' % (R, size)))
                        ps.append(P('int @f(void) { return -%s < 0; }' % body, holes=h, ref='int @f(void) { %sreturn (%s) ? 0 : v != 0; }' % (R, uns)))
                    if k in (-1, k - k % 3 + 2):
                        ps.append(P('long @f(long a) { return a + %s; }' % body, holes=h, ref='long @f(long a) { %sreturn (long)((unsigned long)a + v); }' % R))
                        ps.append(P('int @f(int a) { return a < %s; }' % body, holes=h, ref='int @f(int a) { %sint u = %s, s = %s; return u ? (s == 4 ? (unsigned)a < (unsigned)v : (unsigned long)(long)a < v) : (long)a < (long)v; }' % (R, uns, size)))
                        ps.append(P('unsigned long @g = %s;\nint @f(void) { return 0; }' % body, holes=h, globs='g', ref='unsigned long @g;\nint @f(void) { return 0; }', setup='{ %s@g = v; }' % R))
    for l in ['0', '00', '0x0', '0u', '0l', '1', '2147483647', '2147483648', '4294967295', '4294967296', '9223372036854775807', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000', '0x7fffffffffffffff', '0x8000000000000000', '0xffffffffffffffff', '037777777777', '020000000000', '01777777777777777777777', '18446744073709551615u', '4294967296u']:
        for e in ['%s', '-%s', '~%s', '%s / 3', '%s >> 1', '%s + a', 'a * %s', 'a & %s', 'a | %s', 'a ^ %s', '%s - a', 'a / %s' if l.strip('0xul') else 'a', 'a %% %s' if l.strip('0xul') else 'a', 'a == %s', 'a < %s', 'a > %s', 'a ? %s : a', '(int)%s', '(char)%s', '(unsigned)%s', '!%s']:
            for t in (['long', 'unsigned'] if tier == 'quick' else ['char', 'int', 'long', 'unsigned', 'unsigned long']):
                s = e.replace('%s', l).replace('%%', '%')
                ps.append(P('long long @f(%s a) { return %s; }' % (t, s)))
    return ps
