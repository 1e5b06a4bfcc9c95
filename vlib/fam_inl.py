"""C06 and C15: brace structures of initializer lists, drawn from a fixed-seed grammar over nested arrays and structures. For C06 every object
is compared with the reference (values of the local initializers are symbolic); for C15 the bound of one array is a symbolic literal and an
independent reading of C99 6.7.8 says for which bounds the list fits."""
import random
from .prog import P

SC = ['char', 'int', 'long', 'unsigned', 'unsigned long']


class Ty:
    def __init__(self, k, sc=None, n=0, el=None, mem=None, tag=None):
        self.k, self.sc, self.n, self.el, self.mem, self.tag = k, sc, n, el, mem, tag  # k: s a r

    def kids(self, K=None):
        if self.k == 'a':
            return [self.el] * (self.n if self.n != 'K' else K)
        return [t for _, t in self.mem] if self.k == 'r' else []


def gtype(r, depth, tags, tpre='@'):
    c = r.random()
    if depth == 0 or c < 0.2:
        return Ty('s', sc=r.choice(SC))
    if c < 0.6:
        return Ty('a', n=r.choice([1, 2, 2, 3]), el=gtype(r, depth - 1, tags, tpre))
    t = Ty('r', mem=[('m%d' % i, gtype(r, depth - 1, tags, tpre)) for i in range(r.choice([1, 2, 2, 3]))], tag='%sT%d' % (tpre, len(tags)))
    tags.append(t)
    t.tag = '%sT%d' % (tpre, len(tags))
    return t


def decl(t, name, K=None):
    while t.k == 'a':
        name, t = name + '[%s]' % (K if t.n == 'K' else t.n), t.el
    return ('struct %s %s' % (t.tag, name)) if t.k == 'r' else '%s %s' % (t.sc, name)


def defs(tags, K=None):
    return ''.join('struct %s { %s };\n' % (t.tag, ' '.join(decl(m, n, K) + ';' for n, m in t.mem)) for t in tags)


def leaves(t, path, K=None):
    if t.k == 's':
        return [(path, t.sc)]
    if t.k == 'a':
        return [x for i in range(t.n if t.n != 'K' else K) for x in leaves(t.el, '%s[%d]' % (path, i), K)]
    return [x for n, m in t.mem for x in leaves(m, '%s.%s' % (path, n), K)]


def ginit(r, t, num):
    """a valid braced list for the aggregate t, as nested lists"""
    out, kids = [], t.kids()
    stop = r.randint(1, len(kids)) if r.random() < 0.5 else len(kids)
    for k in kids[:stop]:
        if k.k == 's':
            out.append(num())
        elif r.random() < 0.55:
            out.append(ginit(r, k, num))
        else:
            sub, full = flat(r, k, num)
            out += sub
            if not full:
                break
    return out


def flat(r, t, num):
    out = []
    for i, k in enumerate(t.kids()):
        if i and r.random() < 0.2:
            return out, False
        if k.k == 's':
            out.append(num())
        elif i and r.random() < 0.4:
            out.append(ginit(r, k, num))
        else:
            s, full = flat(r, k, num)
            out += s
            if not full:
                return out, False
    return out, True


def show(x):
    return '{ %s }' % ', '.join(show(y) for y in x) if isinstance(x, list) else str(x)


def fam_lists(tier):
    ps = []
    for seed in range(400 if tier == 'quick' else 900):
        r = random.Random(1000 + seed)
        tags = []
        t = Ty('s')
        while t.k == 's':
            del tags[:]
            t = gtype(r, 3, tags)
        lv = leaves(t, '@g')
        if len(lv) > 24:
            continue
        D = defs(tags)
        n = [0]

        def num():
            n[0] += 1
            return n[0] + 10
        init = ginit(r, t, num)
        ps.append(P(D + decl(t, '@g') + ' = %s;\nint @f(void) { return 0; }' % show(init), globs='g'))
        loc = leaves(t, 'v')
        sym = lambda: r.choice(['a', 'b', 'a + b', '7', 'c', '-1', 'a * 2'])
        ini2 = ginit(r, t, sym)
        cp = ' '.join('%s = %s;' % (x[0], y[0]) for x, y in zip(lv, loc))
        ps.append(P(D + decl(t, '@g') + ';\nvoid @f(int a, long b, char c) { char p = 3; %s = %s; char q = 4; %s %s += p - q + 1; }' % (decl(t, 'v'), show(ini2), cp, lv[0][0]), globs='g', sym='g'))
        ps.append(P(D + decl(t, '@g') + ';\nvoid @f(int a, long b, char c) { int i; for (i = 0; i < 2; i++) { %s = %s; a = a + 5; %s } }' % (decl(t, 'v'), show(ini2), cp), globs='g', sym='g'))
    return ps


# ---------------------------------------------------------------- which bounds fit
class Bad(Exception):
    pass


class Unsure(Exception):
    pass


def braced(t, items, K):
    st, kids = list(items), t.kids(K)
    for k in kids:
        if not st:
            break
        element(k, st, K)
    if st:
        raise Bad


def element(t, st, K):
    if isinstance(st[0], list):
        x = st.pop(0)
        if t.k == 's':
            if len(x) != 1 or isinstance(x[0], list):
                raise Unsure  # a list for a scalar
            return
        braced(t, x, K)
    elif t.k == 's':
        st.pop(0)
    else:
        for k in t.kids(K):
            if not st:
                return
            element(k, st, K)


def gtree(r, depth):
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    return [gtree(r, depth - 1) if depth and r.random() < 0.35 else 1 for _ in range(n)]


I, A, S = (lambda: Ty('s', sc='int')), (lambda n, e: Ty('a', n=n, el=e)), (lambda tag, *m: Ty('r', tag=tag, mem=[('m%d' % i, x) for i, x in enumerate(m)]))


def shapes():
    s = S('S', I(), A('K', I()))
    yield [s], A(2, s)
    s = S('S', A('K', I()), I())
    yield [s], A(2, s)
    s = S('S', I(), A('K', I()))
    u = S('U', s, I())
    yield [s, u], u
    s = S('S', A('K', I()))
    u = S('U', I(), s, A(2, I()))
    yield [s, u], A(2, u)
    yield [], A(2, A('K', I()))
    yield [], A('K', A(2, I()))
    yield [], A(2, A(2, A('K', I())))
    yield [], A(2, A('K', A(2, I())))
    s = S('S', I(), I())
    yield [s], A('K', s)
    s = S('S', I(), I())
    u = S('U', A('K', s), I())
    yield [s, u], u
    s = S('S', I(), S('V', I(), A('K', I())))
    yield [s.mem[1][1], s], A(2, s)


def fam_fit(tier):
    ps = []
    for si, (tags, t) in enumerate(shapes()):
        r, seen = random.Random(77 + si), set()
        want = 24 if tier == 'quick' else 200
        for _ in range(40 * want):
            if len(seen) >= want:
                break
            x = gtree(r, 2)
            sx = show(x)
            if sx in seen:
                continue
            ok, unsure = [], []
            for K in range(1, 8):
                try:
                    braced(t, x, K)
                    ok.append(K)
                except Bad:
                    pass
                except Unsure:
                    unsure.append(K)
            if len(unsure) > 4 or (len(ok) in (0, 7) and r.random() < 0.8):
                continue
            seen.add(sx)
            kk = lambda l: ' || '.join('@KK == %d' % k for k in l) or '0'
            dom = [k for k in range(1, 8) if k not in unsure]
            k1 = dict(accept=kk(ok), lpre=kk(dom))
            L = '#K:1:i#'
            ps.append(P(defs(tags, L) + 'int z(void) { %s = %s; return 0; }' % (decl(t, 'v', L), sx), **k1))
            ps.append(P(defs(tags, L) + decl(t, 'v', L) + ' = %s;\nint z(void) { return 0; }' % sx, **k1))
    return ps
