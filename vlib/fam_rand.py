"""Program shapes drawn from the grammar of the supported subset by a fixed pseudo-random walk (the same shapes in every run);
each shape is decided for all values like those of the other families. Every program is free of undefined and unspecified behaviour
by construction: effects of sub-expressions are tracked, so that unsequenced operands never conflict; divisors, shift counts and
indices are masked; loops are bounded."""
import random
from .prog import P, CODE

T = ['char', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long']
NONE = (frozenset(), frozenset(), False)
LEVEL = {'*': 13, '/': 13, '%': 13, '+': 12, '-': 12, '<<': 11, '>>': 11, '<': 10, '>': 10, '<=': 10, '>=': 10, '==': 9, '!=': 9, '&': 8, '^': 7, '|': 6, '&&': 5, '||': 4}
DEF = dict(depth=3, stmts=5, nest=2, branch=4, calls=1, exts=1, fx=3, ptr=2, struct=2, arr=2, init=2, ctl=3, shadow=1, types=T, params=4, helpers=1, fptr=1, mul=1, div=1, logic=2, cast=2, scopes=0)


def union(*es):
    return (frozenset().union(*[e[0] for e in es]), frozenset().union(*[e[1] for e in es]), any(e[2] for e in es))


def clash(x, y):
    return bool(x[1] & (y[0] | y[1]) or y[1] & x[0] or x[2] and y[2])


class Gen:
    def __init__(self, rng, **w):
        self.r, self.w = rng, dict(DEF, **w)
        self.decls, self.ext, self.nlit, self.uid, self.live = [], set(), 0, 0, 0
        self.branches = self.w['branch']
        self.vars = []       # visible scalars: (name, type, class, assignable)
        self.arrs = []       # (text of the array, elements, class, assignable)
        self.ptrs = []       # (name, class, offset range as number of elements from here)
        self.structs = []    # (tag, [(member, kind, info)])
        self.sobj = []       # (text of an object, tag, class)
        self.sptr = []       # (name, tag, class, elements)
        self.fns = []        # (name, ret, params, effects)
        self.fps = []        # (name, params, effects)
        self.globs, self.sym = [], []
        self.loop = self.switch = 0
        self.here = set()
        self.rettype = 'int'

    def ch(self, *k):
        """weighted choice among (weight, value)"""
        k = [(w, v) for w, v in k if w > 0]
        n = self.r.uniform(0, sum(w for w, _ in k))
        for w, v in k:
            n -= w
            if n <= 0:
                return v
        return k[-1][1]

    def name(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def type(self):
        return self.r.choice(self.w['types'])

    # ------------------------------------------------ expressions: (text, level, effects, registers needed)
    def lit(self):
        r = self.r
        k = r.randrange(12)
        if k < 6:
            return str(r.choice([0, 1, 2, 3, 5, 7, 8, 15, 31, 100]))
        if k == 6 and self.nlit < 2:
            self.nlit += 1
            return '#K%d:%d:i#' % (self.nlit, r.choice([3, 5, 9]))
        if k == 7:
            return "'%s'" % r.choice(['a', 'Z', '0', ' ', '\\n', '\\0', '~'])
        if k == 8:
            return r.choice(['0x7f', '0x80', '0xff', '0377', '255', '256', '65535', '0xffff'])
        if k == 9:
            return r.choice(['2147483647', '2147483648', '4294967295', '0x80000000', '0xffffffff', '1000000007', '123456789'])
        if k == 10:
            return r.choice(['5u', '1l', '3ul', '9ll', '4294967296', '4294967295u', '0xffffffffffffffffull', '9223372036854775807', '1ull'])
        return str(r.randrange(1, 200))

    def par(self, e, lvl):
        """text of e where the grammar wants at least level lvl"""
        t = e[0] if e[1] >= lvl and self.r.randrange(12) else e[0] if e[1] >= 16 else '(%s)' % e[0]
        return t

    def glue(self, op, b):
        """a space where two operators would form another token"""
        return op + (' ' if b[:1] == op[-1:] else '') + b

    def leaf(self):
        r, w = self.r, self.w
        k = self.ch((4 if self.vars else 0, 'v'), (2, 'l'), (w['arr'] if self.arrs else 0, 'a'), (w['ptr'] if self.ptrs else 0, 'p'), (w['struct'] if self.sobj else 0, 's'), (w['struct'] if self.sptr else 0, 'm'))
        if k == 'l':
            return (self.lit(), 16, NONE, 1)
        lv = self.lval(k, False)
        return (lv[0], lv[1], (lv[2][0] | frozenset([lv[3]]), lv[2][1], lv[2][2]), lv[4])

    def index(self, n, fx):
        """text of an index in 0..n-1 and its effects"""
        r = self.r
        cnt = [v for v in self.vars if v[0][0] == 'i' and not v[3] and n >= 3]
        if cnt and r.randrange(2):
            v = r.choice(cnt)
            return v[0], (frozenset([v[2]]), frozenset(), False)
        if n >= 4 and self.branches > 2 and r.randrange(4) == 0:
            self.branches -= 2
            e = self.expr(1, fx)
            return '%s & 3' % self.par(e, 9), e[2]
        return str(r.randrange(n)), NONE

    def member(self, tag, text, lvl, cls, fx):
        """descend to a scalar member"""
        ms = dict((s[0], s[1]) for s in self.structs)[tag]
        m, kind, info = self.r.choice(ms)
        t = '%s%s' % (text, m)
        if kind == 's':
            return t, NONE
        if kind == 'a':
            i, e = self.index(info, fx)
            return '%s[%s]' % (t, i), e
        return self.member(info, t + '.', lvl, cls, fx)

    def lval(self, k=None, write=True, fx=False):
        """(text, level, effects of designating, class, registers)"""
        r, w = self.r, self.w
        vs = [v for v in self.vars if v[3] or not write]
        if k is None:
            k = self.ch((5 if vs else 0, 'v'), (w['arr'] if self.arrs else 0, 'a'), (w['ptr'] if self.ptrs else 0, 'p'), (w['struct'] if self.sobj else 0, 's'), (w['struct'] if self.sptr else 0, 'm'))
        if k == 'v':
            v = r.choice(vs) if vs else None
            if v is None:
                return None
            return (v[0], 16, NONE, v[2], 1)
        if k == 'a':
            a = r.choice(self.arrs)
            t, e = a[0], NONE
            for n in a[1]:
                i, e1 = self.index(n, fx)
                if clash(e, e1):
                    i, e1 = '0', NONE
                t += '[%s]' % i
                e = union(e, e1)
            if len(a[1]) == 1 and r.randrange(8) == 0:
                return ('*(%s + %s)' % (a[0], t[len(a[0]) + 1:-1] if '&' not in t else '(%s)' % t[len(a[0]) + 1:-1]), 14, e, a[2], 2)
            return (t, 15, e, a[2], 2)
        if k == 'p':
            p = r.choice(self.ptrs)
            rd = frozenset([p[0]])
            f = r.randrange(4)
            if f == 0:
                return ('*%s' % p[0], 14, (rd, frozenset(), False), p[1], 1)
            i, e = self.index(p[2], fx)
            e = union(e, (rd, frozenset(), False))
            if f == 1:
                return ('*(%s + %s)' % (p[0], i if '&' not in i else '(%s)' % i), 14, e, p[1], 2)
            return ('%s[%s]' % (p[0], i), 15, e, p[1], 2)
        if k == 's':
            o = r.choice(self.sobj)
            t, e = self.member(o[1], o[0] + '.', 15, o[2], fx)
            return (t, 15, e, o[2], 2)
        o = r.choice(self.sptr)
        rd = (frozenset([o[0]]), frozenset(), False)
        f = r.randrange(3)
        pre = o[0] + '->' if f else '%s[%d].' % (o[0], r.randrange(o[3]))
        if f == 2 and r.randrange(2):
            pre = '(*%s).' % o[0]
        t, e = self.member(o[1], pre, 15, o[2], fx)
        return (t, 15, union(rd, e), o[2], 2)

    def bin(self, op, a, b):
        l = LEVEL[op]
        t = '%s %s %s' % (self.par(a, l), op, self.par(b, l + 1))
        return (t, l, union(a[2], b[2]), max(a[3], b[3] + 1))

    def pure(self, d, avoid):
        for _ in range(6):
            e = self.expr(d, False)
            if not clash(e[2], avoid):
                return e
        return (self.lit(), 16, NONE, 1)

    def two(self, d, fx):
        """two unsequenced operands"""
        if fx and self.r.randrange(2):
            a = self.expr(d, True)
            b = self.pure(self.r.randrange(d + 1), a[2])
        else:
            b = self.expr(self.r.randrange(d + 1), fx)
            a = self.pure(d, b[2])
        return (a, b) if self.r.randrange(4) else (b, a)

    def expr(self, d, fx):
        r, w = self.r, self.w
        if d <= 0:
            if not fx or r.randrange(3):
                return self.leaf()
            d = 1
        k = self.ch((6, 'arith'), (w['mul'], 'mul'), (w['div'], 'div'), (2, 'shift'), (2, 'bits'), (3, 'cmp'), (w['logic'] if self.branches > 0 else 0, 'logic'), (w['logic'] / 2 if self.branches > 0 else 0, 'cond'), (2, 'un'), (w['cast'], 'cast'),
                    (w['calls'] if self.fns else 0, 'call'), (w['calls'] if self.fps else 0, 'fp'), (w['exts'] if fx else 0, 'ext'), (w['fx'] if fx else 0, 'inc'), (w['fx'] if fx else 0, 'asg'), (1, 'leaf'))
        if k == 'leaf':
            return self.leaf()
        if k == 'arith':
            return self.bin(r.choice('+--'), *self.two(d - 1, fx))
        if k == 'bits':
            return self.bin(r.choice('&|^'), *self.two(d - 1, fx))
        if k == 'cmp':
            return self.bin(r.choice(['<', '>', '<=', '>=', '==', '!=']), *self.two(d - 1, fx))
        if k == 'mul':
            a, b = self.two(d - 1, fx)
            if r.randrange(3):
                b = (str(r.choice([2, 3, 5, 7, 10])), 16, NONE, 1)
            return self.bin('*', a, b)
        if k == 'div':
            a = self.expr(d - 1, fx)
            if r.randrange(4):
                b = (str(r.choice([1, 2, 3, 7, 10, 16])), 16, NONE, 1)
            else:
                b = self.pure(0, a[2])
                b = ('(%s & 7) + 1' % self.par(b, 9), 12, b[2], b[3])
            return self.bin(r.choice('/%'), a, b)
        if k == 'shift':
            a = self.expr(d - 1, fx)
            if r.randrange(3):
                b = (str(r.randrange(8)), 16, NONE, 1)
            else:
                b = self.pure(0, a[2])
                b = ('%s & 7' % self.par(b, 9), 8, b[2], b[3])
            return self.bin(r.choice(['<<', '>>']), a, b)
        if k == 'logic':
            self.branches -= 1
            a, b = self.expr(d - 1, fx), self.expr(d - 1, fx)
            return self.bin(r.choice(['&&', '||']), a, b)
        if k == 'cond':
            self.branches -= 1
            a, b, c = self.expr(d - 1, fx), self.expr(d - 1, fx), self.expr(d - 1, fx)
            return ('%s ? %s : %s' % (self.par(a, 4), self.par(b, 2), self.par(c, 3)), 3, union(a[2], b[2], c[2]), max(a[3], b[3], c[3]))
        if k == 'un':
            a = self.expr(d - 1, fx)
            op = r.choice('-~!+')
            return (self.glue(op, self.par(a, 14)), 14, a[2], a[3])
        if k == 'cast':
            a = self.expr(d - 1, fx)
            return ('(%s)%s' % (self.type(), self.par(a, 14)), 14, a[2], a[3])
        if k in ('call', 'fp'):
            f = r.choice(self.fns if k == 'call' else self.fps)
            args, e = [], f[3]
            for _ in f[2]:
                if fx and not e[1] and not e[2]:
                    a = self.expr(d - 1, True)
                    if clash(a[2], e):
                        a = self.pure(d - 1, e)
                else:
                    a = self.pure(d - 1, e)
                args.append(a)
                e = union(e, a[2])
            if f[3][1] and (not fx):
                return self.leaf()
            nm = f[0]
            if k == 'fp':
                e = union(e, (frozenset([f[0]]), frozenset(), False))
                nm = r.choice(['%s', '(*%s)']) % nm
            return ('%s(%s)' % (nm, ', '.join(self.par(a, 2) for a in args)), 15, e, 2 + max([1] + [a[3] for a in args]))
        if k == 'ext':
            n = self.ch((2, 1), (1, 2), (1, 0), (w['calls'] - 1, r.randrange(3, 9)))
            ts = [self.type() for _ in range(n)]
            rt = self.type()
            f = 'e%s_%s' % (CODE[rt], ''.join(CODE[t] for t in ts))
            self.ext.add((f, rt, tuple(ts)))
            args, e = [], (frozenset(), frozenset(), True)
            for _ in ts:
                a = self.pure(d - 1, e)
                args.append(a)
                e = union(e, a[2])
            return ('%s(%s)' % (f, ', '.join(self.par(a, 2) for a in args)), 15, e, 2 + max([1] + [a[3] for a in args]))
        lv = self.lval(fx=k == 'inc')
        if lv is None:
            return self.leaf()
        if k == 'inc':
            op = r.choice(['++', '--'])
            e = union(lv[2], (frozenset([lv[3]]), frozenset([lv[3]]), False))
            if clash(lv[2], (frozenset(), frozenset([lv[3]]), False)):
                return self.leaf()
            if r.randrange(2):
                return ('%s%s' % (self.par(lv, 15), op), 15, e, lv[4] + 1)
            return ('%s%s' % (op, self.par(lv, 14)), 14, e, lv[4] + 1)
        op = self.ch((3, '='), (4, r.choice(['+=', '-=', '&=', '|=', '^='])), (1, '<<='), (1, '/='))
        if op in ('<<=', '/='):
            op, t = r.choice([('<<=', '3'), ('>>=', '1'), ('/=', '3'), ('%=', '7'), ('*=', '5')])
            b = (t, 16, NONE, 1)
        else:
            b = self.expr(d - 1, True)
            if clash(b[2], lv[2]) or lv[3] in b[2][1]:
                b = self.pure(d - 1, lv[2])
        if lv[3] in lv[2][0]:
            return self.leaf()
        e = union(lv[2], b[2], (frozenset([lv[3]]), frozenset([lv[3]]), False))
        return ('%s %s %s' % (self.par(lv, 14), op, self.par(b, 2)), 2, e, max(b[3], lv[4] + 1) + 1)

    def full(self, d, fx=True, conv=True):
        e = self.expr(d, fx)
        self.live = max(self.live, e[3])
        return e[0]

    def arg(self, d, fx=True):
        """an assignment expression"""
        e = self.expr(d, fx)
        self.live = max(self.live, e[3])
        return self.par(e, 2)

    # ------------------------------------------------ statements
    def cond(self, d=2):
        self.branches -= 1
        return self.full(self.r.randrange(d + 1))

    def mark(self):
        m = (list(self.vars), list(self.arrs), list(self.ptrs), list(self.sobj), list(self.sptr), list(self.fps), list(self.structs), self.here)
        self.here = set()
        return m

    def release(self, m):
        self.vars, self.arrs, self.ptrs, self.sobj, self.sptr, self.fps, self.structs, self.here = m

    def block(self, n, d):
        m = self.mark()
        s = ' '.join(self.stmt(d) for _ in range(n))
        self.release(m)
        return '{ %s }' % s

    def sub(self, d):
        """a sub-statement: braces or not"""
        m = self.mark()
        if self.r.randrange(3):
            s = self.block(self.r.randrange(1, 4), d)
        else:
            s = self.stmt(d, decl=False)
            if s.startswith(('int i', 'p = ')) or '; ' in s and not s.startswith(('if', 'while', 'for', 'switch', '{')):
                s = '{ %s }' % s
        self.release(m)
        return s

    def assign(self):
        for _ in range(8):
            e = self.expr(self.w['depth'], True)
            if e[2][1] or e[2][2]:
                self.live = max(self.live, e[3])
                return e[0] + ';'
        return self.full(1) + ';'

    def shadow(self, name):
        """name is redeclared: nothing that mentions it is visible any more"""
        self.vars = [v for v in self.vars if v[0] != name]
        self.arrs = [v for v in self.arrs if v[0] != name]
        self.ptrs = [v for v in self.ptrs if v[0] != name]
        self.sobj = [v for v in self.sobj if v[0] != name]
        self.sptr = [v for v in self.sptr if v[0] != name]
        self.fps = [v for v in self.fps if v[0] != name]

    def local(self, shadow=False):
        r, w = self.r, self.w
        k = self.ch((4, 'v'), (w['arr'], 'a'), (w['ptr'], 'p'), (w['struct'] if self.structs else 0, 's'), (w['struct'] if self.sobj or self.sptr else 0, 'q'), (w['fptr'] if self.fns else 0, 'f'))
        old = [v[0] for v in self.vars if v[0][0] != 'i' and '@' not in v[0] and v[0] not in self.here]
        if k == 'v':
            t = self.type()
            n = r.choice(old) if shadow and old and r.randrange(2) else self.name('x')
            e = self.arg(w['depth'])
            if n in old and ('%s' % n) in e:
                e = '3'
            self.shadow(n)
            self.here.add(n)
            self.vars.append((n, t, self.name('c'), True))
            return '%s %s = %s;' % (t, n, e)
        if k == 'a':
            t, n = self.type(), self.name('y')
            dims = [r.randrange(1, 6)] if r.randrange(3) else [r.randrange(1, 4), r.randrange(1, 4)]
            tot = 1
            for q in dims:
                tot *= q
            c = self.name('c')
            txt = '%s %s%s = %s;' % (t, n, ''.join('[%d]' % q for q in dims), self.initlist(dims))
            self.arrs.append((n, dims, c, True))
            return txt
        if k == 'p':
            src = [a for a in self.arrs if len(a[1]) == 1] and r.randrange(2)
            n = self.name('p')
            if src:
                a = r.choice([a for a in self.arrs if len(a[1]) == 1])
                t = self.atype(a)
                if t:
                    o = r.randrange(a[1][0])
                    self.ptrs.append((n, a[2], a[1][0] - o))
                    return '%s* %s = %s;' % (t, n, r.choice(['%s + %d', '&%s[%d]']) % (a[0], o) if o else a[0])
            vs = [v for v in self.vars if v[0][0] != 'i']
            if vs:
                v = r.choice(vs)
                self.ptrs.append((n, v[2], 1))
                return '%s* %s = &%s;' % (v[1], n, v[0])
            return ';'
        if k == 's':
            tag, ms = r.choice(self.structs)
            n = self.name('s')
            s = self.initstruct(tag)
            self.sobj.append((n, tag, self.name('c')))
            return 'struct %s %s = %s;' % (tag, n, s)
        if k == 'q':
            n = self.name('q')
            o = [(x[0], x[1], x[2], 1) for x in self.sobj if '[' not in x[0] and '.' not in x[0]]
            if o and r.randrange(2):
                x = r.choice(o)
                self.sptr.append((n, x[1], x[2], 1))
                return 'struct %s* %s = &%s;' % (x[1], n, x[0])
            if self.sptr:
                x = r.choice(self.sptr)
                o = r.randrange(x[3])
                self.sptr.append((n, x[1], x[2], x[3] - o))
                return 'struct %s* %s = %s;' % (x[1], n, '%s + %d' % (x[0], o) if o else x[0])
            return ';'
        f = r.choice(self.fns)
        n = self.name('f')
        self.fps.append((n, f[1], f[2], f[3]))
        return '%s (*%s)(%s) = %s;' % (f[1], n, ', '.join(f[2]) or 'void', f[0])

    def atype(self, a):
        return self.atypes.get(a[0])

    def initlist(self, dims):
        """initializer of a local array: unsequenced elements, so no effects"""
        r = self.r
        n = r.randrange(1, dims[0] + 1)
        if len(dims) == 1:
            return '{%s}' % ', '.join(self.arg(1, False) for _ in range(n))
        if r.randrange(4) == 0:
            return '{%s}' % ', '.join(self.arg(1, False) for _ in range(r.randrange(1, dims[0] * dims[1] + 1)))
        return '{%s}' % ', '.join(self.initlist(dims[1:]) for _ in range(n))

    def initstruct(self, tag):
        r = self.r
        ms = dict((s[0], s[1]) for s in self.structs)[tag]
        o = []
        for m, kind, info in ms[:r.randrange(1, len(ms) + 1)]:
            o.append(self.arg(1, False) if kind == 's' else self.initlist([info]) if kind == 'a' else self.initstruct(info))
        return '{%s}' % ', '.join(o)

    def stmt(self, d, decl=True):
        r, w = self.r, self.w
        jump = d < w['nest']
        k = self.ch((5, 'e'), (w['exts'] * 2, 'ev'), (2 * w['init'] if decl else 0, 'd'), (w['ctl'] if d > 0 and self.branches > 0 else 0, 'if'), (w['ctl'] / 2 if d > 0 and self.branches > 1 else 0, 'loop'), (w['ctl'] / 1.5 if d > 0 and self.branches > 1 else 0, 'switch'),
                    (w['shadow'] if d > 0 else 0, 'block'), (1 if self.loop or self.switch else 0, 'break'), (1 if self.loop else 0, 'cont'), (0.4 if jump and self.branches > 0 else 0, 'ret'), (w['fx'] / 3 if self.sptr or self.ptrs else 0, 'walk'))
        if k == 'e':
            return self.assign()
        if k == 'ev':
            self.ext.add(('ev_i', 'void', ('int',)))
            e = self.expr(1, False)
            return 'ev_i(%s);' % self.par(e, 2)
        if k == 'd':
            return self.local(shadow=w['shadow'] > 0 and d < w['nest'])
        if k == 'if':
            c = self.cond()
            s = 'if (%s) %s' % (c, self.sub(d - 1))
            if r.randrange(2):
                if not s.endswith('}') or 'if (' in s[4 + len(c):]:
                    m = len('if (%s) ' % c)
                    if s[m] != '{':
                        s = s[:m] + '{ %s }' % s[m:]
                s += ' else ' + self.sub(d - 1)
            return s
        if k == 'loop':
            i = self.name('i')
            n = r.choice([1, 2, 2, 3])
            self.branches -= 1
            b = self.branches
            self.branches = self.branches // n
            m, lp, sw = self.mark(), self.loop, self.switch
            self.loop += 1
            self.switch = 0
            self.vars.append((i, 'int', self.name('c'), False))
            f = r.randrange(4)
            body = ' '.join(self.stmt(d - 1) for _ in range(r.randrange(1, 4)))
            self.release(m)
            self.loop, self.switch = lp, sw
            self.branches = b - 1
            if f == 0:
                return 'int %s = 0; while (%s < %d) { %s++; %s }' % (i, i, n, i, self.iv(body, i, 1))
            if f == 1:
                return 'int %s; for (%s = 0; %s < %d; %s++) { %s }' % (i, i, i, n, i, body)
            if f == 2:
                return 'for (int %s = %d; %s; %s--) { %s }' % (i, n, i, i, self.iv(body, i, 1))
            return 'int %s = 0; for (;;) { if (%s++ == %d) break; %s }' % (i, i, n, self.iv(body, i, 1))
        if k == 'switch':
            self.branches -= 2
            e = self.expr(1, True)
            v = e[0] if r.randrange(2) else '%s & 3' % self.par(e, 9)
            labs = r.sample([0, 1, 2, 3, 4, 7], r.randrange(1, 4))
            labs = ['case %d:' % x for x in labs]
            if r.randrange(3):
                labs.insert(r.randrange(len(labs) + 1), 'default:')
            sw, b = self.switch, self.branches
            self.switch = 1
            out = []
            for l in labs:
                self.branches = max(0, b // 2)
                body = ' '.join(self.stmt(d - 1, decl=False) for _ in range(r.randrange(0, 3))) or ';'
                if 'int i' in body or '; p' in body:
                    body = '{ %s }' % body
                out.append('%s %s%s' % (l, body, ' break;' if r.randrange(2) else ''))
            self.switch, self.branches = sw, b - 1
            return 'switch (%s) { %s }' % (v, ' '.join(out))
        if k == 'block':
            return self.block(r.randrange(1, 4), d - 1)
        if k == 'break':
            if self.branches > 0 and r.randrange(2):
                return 'if (%s) break;' % self.cond(1)
            return 'break;'
        if k == 'cont':
            if self.branches > 0 and r.randrange(2):
                return 'if (%s) continue;' % self.cond(1)
            return 'continue;'
        if k == 'ret':
            return 'if (%s) return %s;' % (self.cond(1), self.full(1))
        # a pointer that moves through an array and is set back
        if self.sptr and (not self.ptrs or r.randrange(2)):
            q = r.choice(self.sptr)
            if q[3] < 2:
                return self.assign()
            ms = [m for m in dict((s[0], s[1]) for s in self.structs)[q[1]] if m[1] == 's']
            if not ms:
                return self.assign()
            v = r.choice(ms)[0]
            rest = self.pure(1, (frozenset([q[0], q[2]]), frozenset([q[0], q[2]]), False))
            rest = self.par(rest, 2)
            f = r.randrange(6)
            s = ['(%s++)->%s = %s;' % (q[0], v, rest), '(++%s)->%s = %s;' % (q[0], v, rest), '(%s++)->%s++;' % (q[0], v), '%s++; %s->%s -= %s;' % (q[0], q[0], v, rest), '%s += 1; %s[0].%s = %s;' % (q[0], q[0], v, rest), '(*%s++).%s = %s;' % (q[0], v, rest)][f]
            return '{ %s %s; }' % (s, r.choice(['%s--', '--%s', '%s -= 1', '%s = %s - 1']).replace('%s', q[0]))
        q = r.choice(self.ptrs)
        if q[2] < 2:
            return self.assign()
        rest = self.pure(1, (frozenset([q[0], q[1]]), frozenset([q[0], q[1]]), False))
        rest = self.par(rest, 2)
        s = ['*%s++ = %s;', '*++%s = %s;', '(*%s++)++; %s;', '%s++; *%s -= %s;', '%s += 1; %s[0] = %s;', '*(%s++) = %s;'][r.randrange(6)]
        s = s.replace('%s', q[0], s.count('%s') - 1) % rest
        return '{ %s %s; }' % (s, r.choice(['%s--', '--%s', '%s -= 1', '%s = %s - 1']).replace('%s', q[0]))

    def iv(self, body, i, off):
        """the counter runs from 1 here: indices use counter - 1"""
        import re
        return re.sub(r'\b%s\b' % i, '(%s - %d)' % (i, off), body)

    # ------------------------------------------------ programs
    def gstruct(self, depth=0):
        r = self.r
        tag = '@S%d' % len(self.structs)
        ms, txt = [], []
        for i in range(r.randrange(1, 5)):
            m = 'm%d' % i
            k = r.randrange(6)
            if k < 4:
                t = self.type()
                ms.append((m, 's', t))
                txt.append('%s %s;' % (t, m))
            elif k == 4:
                n = r.randrange(1, 5)
                ms.append((m, 'a', n))
                txt.append('%s %s[%d];' % (self.type(), m, n))
            else:
                if self.structs:
                    s = r.choice(self.structs)
                    ms.append((m, 'n', s[0]))
                    txt.append('struct %s %s;' % (s[0], m))
                else:
                    ms.append((m, 's', 'char'))
                    txt.append('char %s;' % m)
        self.structs.append((tag, ms))
        self.decls.append('struct %s { %s };' % (tag, ' '.join(txt)))
        return tag

    def helper(self):
        r = self.r
        n = '@h%d' % len(self.fns)
        ps = [self.type() for _ in range(self.ch((3, 1), (3, 2), (1, 0), (self.w['calls'], r.randrange(3, 9))))]
        rt = self.type()
        save = self.mark()
        g = [v for v in self.vars if v[0].startswith('@')]
        self.vars = [(chr(97 + i), t, 'l%d' % i, True) for i, t in enumerate(ps)]
        self.arrs, self.ptrs, self.sobj, self.sptr, self.fps, fns, self.fns = [], [], [], [], [], self.fns, []
        eff = NONE
        body = ''
        b = self.branches
        self.branches = 0
        if g and r.randrange(3) == 0:
            v = r.choice(g)
            body = '%s = %s; ' % (v[0], self.par(self.expr(1, False), 2))
            eff = (frozenset(), frozenset([v[2]]), False)
        if r.randrange(3) == 0:
            body += '%s x = %s; ' % (self.type(), self.arg(1, False))
            self.vars.append(('x', 'int', 'lx', True))
        ret = self.expr(2, True) if self.vars else ('4', 16, NONE, 1)
        self.live = max(self.live, ret[3])
        eff = union(eff, (frozenset(), frozenset(), ret[2][2]))
        d = '%s %s(%s) { %sreturn %s; }' % (rt, n, ', '.join('%s %s' % (t, chr(97 + i)) for i, t in enumerate(ps)) or 'void', body, ret[0])
        self.branches = b
        self.fns = fns
        self.release(save)
        self.decls.append(d)
        self.fns.append((n, rt, ps, eff))

    def program(self):
        r, w = self.r, self.w
        self.atypes = {}
        for _ in range(self.ch((w['struct'], r.randrange(1, 3)), (1, 0))):
            self.gstruct()
        for i in range(self.ch((2, 1), (2, 2), (1, 3), (1, 0))):
            t, n = self.type(), '@g%d' % i
            self.decls.append('%s %s;' % (t, n))
            self.vars.append((n, t, n, True))
            self.globs.append('g%d' % i)
            self.sym.append('g%d' % i)
        if r.randrange(3) < w['arr']:
            t, n = self.type(), '@ga'
            k = r.randrange(2, 5)
            self.decls.append('%s %s[%d];' % (t, n, k))
            self.arrs.append((n, [k], n, True))
            self.atypes[n] = t
            self.globs.append('ga')
            self.sym.append('ga')
        for i, (tag, _) in enumerate(self.structs):
            if r.randrange(2):
                n = '@gs%d' % i
                self.decls.append('struct %s %s;' % (tag, n))
                self.sobj.append((n, tag, n))
                self.globs.append(n[1:])
                self.sym.append(n[1:])
        for _ in range(self.ch((w['helpers'], 1), (1, 0), (w['helpers'] - 1, r.randrange(2, 4)))):
            self.helper()
        ps = []
        for i in range(r.randrange(1, w['params'] + 1)):
            n = chr(97 + i)
            k = self.ch((6, 's'), (w['ptr'], 'p'), (w['struct'] if self.structs else 0, 'q'))
            if k == 's' or n == 'a':
                t = self.type()
                ps.append('%s %s' % (t, n))
                self.vars.append((n, t, n, True))
            elif k == 'p':
                t = self.type()
                ps.append('%s* %s' % (t, n))
                self.ptrs.append((n, 'buf' + n, 4))
            else:
                tag = r.choice(self.structs)[0]
                ps.append('struct %s* %s' % (tag, n))
                self.sptr.append((n, tag, 'buf' + n, 4))
        rt = self.rettype = self.type()
        keep = [v[0] for v in self.vars]
        body = [self.stmt(w['nest']) for _ in range(r.randrange(1, w['stmts'] + 1))]
        loc = [v[0] for v in self.vars if '@' not in v[0]]
        loc += [''.join([a[0]] + ['[%d]' % r.randrange(n) for n in a[1]]) for a in self.arrs if '@' not in a[0]] + [self.member(o[1], o[0] + '.', 15, o[2], False)[0] for o in self.sobj if '@' not in o[0]]
        loc = [x for x in loc if '&' not in x]
        r.shuffle(loc)
        if loc and r.randrange(5):
            body.append('%s z = %s; return z%s;' % (self.type(), self.arg(w['depth']), ''.join(' %s %s' % (r.choice('+-'), x) for x in loc[:5])))
        else:
            body.append('return %s;' % self.full(w['depth']))
        ext = ''.join('%s %s(%s);\n' % (t, f, ', '.join('%s a%d' % (q, i) for i, q in enumerate(a)) or 'void') for f, t, a in sorted(self.ext))
        src = ext + '\n'.join(self.decls) + '\n%s @f(%s) { %s }' % (rt, ', '.join(ps), ' '.join(body))
        return P(src, globs=' '.join(self.globs), sym=' '.join(self.sym), expect='ok' if self.live <= 4 else 'maybe')


def family(name, quick, thorough, **w):
    def fam(tier):
        out = []
        n = quick if tier == 'quick' else thorough
        for i in range(n):
            out.append(Gen(random.Random('%s-%d' % (name, i)), **w).program())
        return out
    fam.__name__ = 'fam_rand_' + name
    return fam


fam_exp = family('exp', 400, 4000, depth=4, stmts=2, nest=0, struct=0, arr=0, ptr=0, helpers=0, exts=0, fptr=0, init=1, cast=4)
fam_ctl = family('ctl', 700, 6000, depth=1, stmts=4, nest=3, branch=5, ctl=6, struct=0, arr=0, ptr=0, helpers=0, fptr=0, exts=3, init=1, shadow=2)
fam_call = family('call', 700, 6000, depth=3, stmts=3, nest=1, branch=2, calls=6, exts=3, helpers=3, params=8, struct=0, arr=0, ptr=0, fptr=2)
fam_mem = family('mem', 700, 6000, depth=2, stmts=5, nest=1, branch=4, struct=4, arr=4, ptr=4, calls=0, exts=0, helpers=0, fx=5)
fam_eff = family('eff', 700, 6000, depth=3, stmts=4, nest=1, branch=3, fx=8, exts=2)
fam_reg = family('reg', 600, 6000, depth=5, stmts=2, nest=0, branch=2, calls=2, exts=2, helpers=2, div=3, arr=1, ptr=1, struct=1)
fam_all = family('all', 800, 8000, depth=3, stmts=6, nest=3, branch=5, shadow=3)
