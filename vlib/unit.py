"""Symbolic unit harnesses (harness/*.c) over the real functions of /repo, with native replay under AddressSanitizer/UBSan."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core


class U:
    """One harness entry: sets are harness globals (bounds) per tier."""

    def __init__(self, file, entry, quick=None, thorough=None, max_time=(240, 800), solver_ms=10000, max_steps=400000000, replay='native', need=('done',), note=''):
        self.file, self.entry, self.sets = file, entry, {'quick': quick or {}, 'thorough': thorough or quick or {}}
        self.max_time, self.solver_ms, self.max_steps, self.replay, self.need, self.note = max_time, solver_ms, max_steps, replay, need, note


def run_units(work, units, tier):
    """-> [(unit, result)]; one process per harness entry (and per shard)."""
    bcs = {}
    for f in sorted(set(u.file for u in units)):
        try:
            bcs[f] = work.harness_bc(open(os.path.join(core.VERIF, 'harness', f + '.c')).read(), 'h_' + f)
        except core.BuildError as e:  # an interface the harness drives is gone: nothing can be said
            bcs[f] = None
            print('harness %s does not build: %s' % (f, str(e)[-400:]))

    def one(iu):
        i, u = iu
        if bcs[u.file] is None:
            return {'crashed': 'harness does not build'}
        return core.run_symx(bcs[u.file], work.path('u%d.json' % i), entry=u.entry, max_time=u.max_time[0 if tier == 'quick' else 1], solver_ms=u.solver_ms, max_steps=u.max_steps, sets=list(u.sets[tier].items()), max_errors=12, max_rss=6000000, incremental=True)
    return list(zip(units, core.pmap(one, list(enumerate(units)))))


def native_harness(work, u):
    """The harness and /repo's sources built with sanitizers; exit() is wrapped so that harnesses can catch it."""
    key = 'h_' + u.file + '_' + u.entry
    if key in work.native:
        return work.native[key]
    d = work.path('nh')
    fl = ['-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    if 'nh_objs' not in work.native:
        os.makedirs(d, exist_ok=True)
        src = [s for s in work.sources()]
        with ThreadPoolExecutor(core.NCPU) as ex:
            list(ex.map(lambda t: core.must(['gcc', '-std=c99', '-c', '-Dmain=umlcc_main'] + fl + [t[1], '-o', os.path.join(d, '%d.o' % t[0])], 'native build'), list(enumerate(src))))
        work.native['nh_objs'] = [os.path.join(d, '%d.o' % i) for i in range(len(src))]
    out = work.path(key)
    core.must(['gcc', '-std=gnu99', '-Dharness_entry=' + u.entry, '-DSX_NATIVE', '-I' + os.path.join(core.VERIF, 'lib'), '-I' + os.path.join(core.REPO, 'src')] + fl + [work.path('h_' + u.file + '.c'), os.path.join(core.VERIF, 'lib', 'sxnative.c')] + work.native['nh_objs'] + ['-Wl,--wrap=exit', '-o', out], 'native harness ' + key)
    work.native[key] = out
    return out


def replay(work, u, err, dest, tier):
    os.makedirs(dest, exist_ok=True)
    json.dump({'harness': u.file, 'entry': u.entry, 'bounds': u.sets[tier], 'error': err}, open(os.path.join(dest, 'counterexample.json'), 'w'), indent=1)
    model = os.path.join(dest, 'model.txt')
    with open(model, 'w') as f:
        for k, v in err['choices']:
            f.write('C %s %d\n' % (k, v))
        for k, v in err['syms']:
            f.write('S %s %s\n' % (k, v))
    if callable(u.replay):
        return u.replay(work, u, err, dest)
    exe = native_harness(work, u)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', **{'SX_SET_' + k: str(v) for k, v in u.sets[tier].items()})
    try:
        r = subprocess.run([exe, model], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=env)
    except subprocess.TimeoutExpired:
        return True, 'native replay does not terminate'
    out = (r.stdout + r.stderr).decode('latin-1')
    if r.returncode == 0:
        return False, 'native replay passes: ' + out[-200:]
    return True, 'native replay exit %d: %s' % (r.returncode, out[:600])


def replay_text(work, u, err, dest):
    """Harnesses that feed symbolic bytes to main(): run the native compiler on the text (symbols named t.N / the recorded file)."""
    d = {k: v for k, v in err['syms']}
    text = u.text(err) if hasattr(u, 'text') else b''
    return replay_bytes(work, text, dest)


def replay_bytes(work, text, dest):
    os.makedirs(dest, exist_ok=True)
    src = os.path.join(dest, 'input.c')
    open(src, 'wb').write(text)
    tmp = work.path('replay')
    os.makedirs(tmp, exist_ok=True)
    t, s = os.path.join(tmp, 'x.c'), os.path.join(tmp, 'x.s')
    for f in (t, s):
        if os.path.exists(f):
            os.unlink(f)
    open(t, 'wb').write(text)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', MSAN_OPTIONS='exitcode=77')
    try:
        r = subprocess.run([work.native_umlcc('asan'), t], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=10, env=env, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CPU, (10, 12)))
    except subprocess.TimeoutExpired:
        return True, 'umlcc does not terminate'
    e = r.stderr.decode('latin-1')
    made = os.path.exists(s)
    if r.returncode not in (0, 1) or 'Sanitizer' in e or 'runtime error' in e:
        return True, 'umlcc exit %s: %s' % (r.returncode, e[:500])
    if r.returncode == 1 and (made or not e.strip()):
        return True, 'exit 1 with output file %s, diagnostic %s' % (made, bool(e.strip()))
    if r.returncode == 0 and not made:
        return True, 'exit 0 without output file'
    if r.returncode == 0:
        a = subprocess.run(['as', s, '-o', os.path.join(tmp, 'x.o')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if a.returncode:
            return True, 'the assembler rejects the output: ' + a.stderr.decode('latin-1')[:400]
    r2 = subprocess.run([work.native_umlcc('msan'), t], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    if r2.returncode not in (0, 1):
        return True, 'umlcc exit %s: %s' % (r2.returncode, r2.stderr.decode('latin-1')[:500])
    return False, 'native umlcc exits %s normally' % r.returncode
