"""Native replay of the command line harness (harness/cli.c): the native compiler in a scratch directory, file operations made to
fail by an LD_PRELOAD shim."""
import os, re, shutil, subprocess
from . import core

TEXTS = re.search(r'texts\[\] = \{(.*?)\};\nstatic', open(os.path.join(core.VERIF, 'harness', 'cli.c')).read(), re.S).group(1)
TEXTS = [eval(m) for m in re.findall(r'"(?:[^"\\]|\\.)*"', TEXTS)]
GOOD = [1, 0, 0, 0, 1, 1]


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    return r.returncode, r.stderr


def replay(work, u, err, dest):
    ch, sy = dict(err['choices']), [(k, bytes.fromhex(v)) for k, v in err['syms']]
    d = work.path('cli')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    um = work.native_umlcc()

    def put(n, t):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)

    def get(n):
        p = os.path.join(d, n)
        return open(p).read() if os.path.isfile(p) else None
    if u.entry == 'h_argc':
        put('q.c', TEXTS[0])
        put('r.c', TEXTS[0])
        argc = ch.get('argc', 0) + 1
        rc, e = run([um, 'q.c', 'r.c'][:argc], d, os.environ)
        bad = rc != (argc != 2) or (get('q.s') is not None) != (argc == 2) or get('r.s') is not None or rc and not e.strip()
        return bad, 'argc %d: exit %s' % (argc, rc)
    if u.entry == 'h_name':
        n = u.sets['quick'].get('NLEN', 4)
        name = ''.join(chr(v[0]) for k, v in sy if k == 'c')
        ok = name.endswith('.c') and ch.get('exists')
        if ch.get('exists'):
            put(name, TEXTS[0])
        rc, e = run([um, name], d, os.environ)
        out = get(name[:-1] + 's')
        bad = (rc != 0 or not out or get(name) != TEXTS[0]) if ok else (rc != 1 or not e.strip())
        return bad, 'file name %r: exit %s, output %s' % (name, rc, out is not None)
    t = err.get('set', {}).get('TEXT', u.sets['quick'].get('TEXT', 0))
    put('r.c', TEXTS[t])
    put('q.c', TEXTS[t])
    if ch.get('stale'):
        put('q.s', 'old old old\n')
    for n, c in (('other.c', 'x'), ('other.s', 'y'), ('a', 'z')):
        put(n, c)
    run([um, 'r.c'], d, os.environ)
    shim = work.path('faultshim.so')
    core.must(['gcc', '-shared', '-fPIC', '-w', os.path.join(core.VERIF, 'lib', 'faultshim.c'), '-o', shim, '-ldl'], 'fault shim')
    s = {k: int.from_bytes(v, 'little') for k, v in sy}
    env = dict(os.environ, LD_PRELOAD=shim, SX_FAULT=str(ch.get('fault', 0)), SX_AT=str(s.get('at', 0)), SX_LEN=str(s.get('len', 0)))
    rc, e = run([um, 'q.c'], d, env)
    q, good = get('q.s'), GOOD[t]
    what = 'file operation %d (1 fopen, 2 fseek, 3 ftell, 4 fread, 5 write, 6 fclose) fails at use %d, text %r: exit %s, output %s' % (ch.get('fault', 0), s.get('at', 0), TEXTS[t], rc, q is not None)
    open(os.path.join(dest, 'result.txt'), 'w').write(what)
    if get('q.c') != TEXTS[t] or (get('other.c'), get('other.s'), get('a')) != ('x', 'y', 'z'):
        return True, 'another file changed; ' + what
    if rc == 0:
        return not good or q != get('r.s'), what
    return rc != 1 or q is not None and not (ch.get('stale') and q == 'old old old\n') or not e.strip() or good and not ch.get('fault', 0), what
