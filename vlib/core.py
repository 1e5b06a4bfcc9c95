"""Build /repo to bitcode, run the symbolic executor, collect results, replay natively, write evidence."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UMLCC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SYMX = os.path.join(BUILD, 'symx')
NCPU = min(8, os.cpu_count() or 4)
CLANG = ['clang', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-emit-llvm', '-c']
OPT = ['opt', '-passes=function(sroa,early-cse,simplifycfg,instsimplify)']


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def must(cmd, what, timeout=600):
    r = sh(cmd, timeout)
    if r.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd[:6]), (r.stderr + r.stdout).decode('latin-1')[-3000:]))
    return r


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(VERIF, 'engine', '*'))):
            h.update(open(f, 'rb').read())
        stamp = os.path.join(BUILD, '.engine')
        if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        must(['make', '-C', os.path.join(VERIF, 'engine'), '-j4', 'B=' + BUILD], 'building the engine', 1200)
        open(stamp, 'w').write(h.hexdigest())


class Work:
    """Scratch directory of one check run, with the bitcode of /repo's current tree."""

    def __init__(self, name):
        self.dir = os.path.join(BUILD, 'work', '%s-%d' % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.native = {}
        ensure_engine()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(REPO, 'src')):
            out += [os.path.join(d, f) for f in fs if f.endswith('.c')]
        return sorted(out)

    def build_bc(self, flags=()):
        """repo.bc (all of /repo/src), lib.bc (libc model, x86 interpreter, harness support)."""
        d = self.path('bc')
        os.makedirs(d)
        jobs = [(s, os.path.join(d, '%d.bc' % i), list(flags) + ['-std=c99']) for i, s in enumerate(self.sources())]
        libs = [(os.path.join(VERIF, 'lib', n + '.c'), os.path.join(d, 'lib_%s.bc' % n), ['-fno-builtin']) for n in ('stubs', 'x64i', 'xc')]
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: must(CLANG + j[2] + [j[0], '-o', j[1], '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'lib')], 'compiling ' + j[0]), jobs + libs))
        self.repo_bc, self.lib_bc = self.path('repo.bc'), self.path('lib.bc')
        must(['llvm-link'] + [j[1] for j in jobs] + ['-o', self.path('r0.bc')], 'linking bitcode')
        must(OPT + [self.path('r0.bc'), '-o', self.repo_bc], 'opt')
        must(['llvm-link'] + [j[1] for j in libs] + ['-o', self.path('l0.bc')], 'linking bitcode')
        must(OPT + [self.path('l0.bc'), '-o', self.lib_bc], 'opt')

    def harness_bc(self, csrc, name, flags=(), link_repo=True):
        """Compile one harness C text and link it with repo and library bitcode."""
        c, b, o, m = (self.path(name + e) for e in ('.c', '.0.bc', '.1.bc', '.bc'))
        open(c, 'w').write(csrc)
        must(CLANG + ['-std=gnu99', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'src')] + list(flags) + [c, '-o', b], 'compiling harness ' + name)
        must(OPT + [b, '-o', o], 'opt')
        must(['llvm-link'] + ([self.repo_bc] if link_repo else []) + [self.lib_bc, o, '-o', m], 'linking harness ' + name)
        return m

    # ---- native builds for replay
    def native_umlcc(self, key='plain'):
        if key not in self.native:
            out = self.path('umlcc_' + key)
            cc = 'clang' if key == 'msan' else 'gcc'
            fl = {'plain': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'], 'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer']}[key]
            d = self.path('nat_' + key)
            os.makedirs(d)
            src = self.sources()
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(lambda t: must([cc, '-std=c99', '-g', '-w', '-c'] + fl + [t[1], '-o', os.path.join(d, '%d.o' % t[0])], 'native build'), list(enumerate(src))))
            must([cc] + fl + [os.path.join(d, '%d.o' % i) for i in range(len(src))] + ['-o', out], 'native link')
            self.native[key] = out
        return self.native[key]


def run_symx(bc, out, entry='harness', max_time=600, solver_ms=10000, max_steps=80000000, sets=(), max_errors=40, max_paths=10**7, max_rss=3500000, incremental=False):
    cmd = [SYMX, bc, '--entry', entry, '--out', out, '--max-time', str(max_time), '--solver-timeout', str(solver_ms), '--max-steps', str(max_steps), '--max-errors', str(max_errors), '--max-paths', str(max_paths), '--max-rss', str(max_rss)]
    if incremental:
        cmd.append('--incremental')
    for k, v in sets:
        cmd += ['--set', '%s=%d' % (k, v)]
    try:
        r = sh(cmd, timeout=max_time + 60)
    except subprocess.TimeoutExpired:
        return {'crashed': 'engine timeout', 'entry': entry}
    if r.returncode or not os.path.exists(out):
        return {'crashed': 'engine exit %d: %s' % (r.returncode, r.stderr.decode('latin-1')[-500:]), 'entry': entry}
    try:
        return json.load(open(out))
    except ValueError as e:
        return {'crashed': 'bad engine output: %s' % e, 'entry': entry}


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
