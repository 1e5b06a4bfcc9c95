"""Run program families through the engine and replay counterexamples on the CPU."""
import json, os, signal, subprocess
from . import core, prog


def run_programs(work, progs, name, batch=24, max_time=300, solver_ms=10000):
    """-> (results, failures): failures = [(prog, error)]"""
    n = max(1, min(batch, (len(progs) + core.NCPU - 1) // core.NCPU))
    batches = [progs[i:i + n] for i in range(0, len(progs), n)]

    def one(ib):
        i, b = ib
        bc = work.harness_bc(prog.emit_batch(b), '%s_%d' % (name, i))
        r = core.run_symx(bc, work.path('%s_%d.json' % (name, i)), max_time=max_time, solver_ms=solver_ms, max_errors=200)
        os.unlink(bc)
        return r
    res = core.pmap(one, list(enumerate(batches)))
    fails = []
    for b, r in zip(batches, res):
        for e in r.get('errors', []):
            k = dict(e['choices'])['prog']
            fails.append((b[k], e))
    return res, fails


def run_native(cmd, timeout, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
        return r.returncode, (r.stdout + r.stderr).decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def sanitized(work, t, fresh):
    """does a sanitizer confirm a memory error or an uninitialised value in the compiler on the input file t?"""
    for k in ('asan', 'msan'):
        fresh()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', MSAN_OPTIONS='exitcode=77')
        try:
            r = subprocess.run([work.native_umlcc(k), t], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            return True, 'umlcc does not terminate'
        if r.returncode not in (0, 1):
            return True, 'sanitizer: ' + r.stderr.decode('latin-1')[:600]
    return None


def replay(work, p, err, dest):
    """Reproduce with the native compiler; writes the case into `dest`; returns (reproduced, text)."""
    os.makedirs(dest, exist_ok=True)
    syms = {k: bytes.fromhex(v) for k, v in err['syms']}
    vals = prog.digit_values(p, syms)
    src = os.path.join(dest, 'input.c')
    open(src, 'wb').write(p.text(vals).encode('latin-1'))
    json.dump({'error': err, 'tag': p.tag, 'expect': p.expect}, open(os.path.join(dest, 'counterexample.json'), 'w'), indent=1)
    tmp = work.path('replay')
    os.makedirs(tmp, exist_ok=True)
    t = os.path.join(tmp, 't.c')
    out = os.path.join(tmp, 't.s')

    def fresh():
        for f in (t, out):
            if os.path.exists(f):
                os.unlink(f)
        open(t, 'wb').write(p.text(vals).encode('latin-1'))
    fresh()
    rc, log = run_native([work.native_umlcc(), t], 10)
    if p.expect == 'any':
        from . import unit
        return unit.replay_bytes(work, p.text(vals).encode('latin-1'), dest)
    if p.expect == 'iff':
        cc, ex = os.path.join(tmp, 'acc.c'), os.path.join(tmp, 'acc')
        open(cc, 'w').write(prog.emit_accepts(p, vals))
        subprocess.run(['gcc', '-w', cc, '-o', ex], check=True)
        v = subprocess.run([ex]).returncode == 1
        if rc not in (0, 1):
            return True, 'umlcc exit %s' % rc
        if rc == 1 or not v or not prog.has_ref(p):
            if (rc == 0) == v and err['kind'] != 'assert':
                return sanitized(work, t, fresh) or (False, 'native run agrees with the reference')
            return (rc == 0) != v, 'umlcc exit %s, the program is %s: %s' % (rc, 'valid' if v else 'invalid', log.strip()[-300:])
    if p.expect == 'reject':
        bad = rc != 1 or os.path.exists(out) or not log.strip()
        if not bad and err['kind'] != 'assert':
            return sanitized(work, t, fresh) or (False, 'rejected')
        return bad, 'invalid program: exit %s, output file %s, diagnostic %s' % (rc, os.path.exists(out), bool(log.strip()))
    if rc == 1 and p.expect == 'maybe' and log.strip() and not os.path.exists(out):
        return False, 'rejected with a diagnostic'
    if rc != 0:
        return True, 'umlcc exit %s on a valid program: %s' % (rc, log.strip()[-300:])
    asm = open(out).read()
    open(os.path.join(dest, 'output.s'), 'w').write(asm)
    drv = os.path.join(dest, 'driver.c')
    open(drv, 'w').write(prog.emit_native(p, syms))
    exe = os.path.join(tmp, 't.out')
    fl = ['gcc', '-O0', '-fwrapv', '-fno-strict-aliasing', '-w', '-no-pie', '-fcommon']
    rc, log = run_native(fl + ['-c', drv, '-o', exe + '.o'], 60)
    if rc != 0:
        return False, 'the replay driver does not compile: ' + log.strip()[-400:]
    rc, log = run_native(fl + [exe + '.o', out, '-o', exe], 60)
    if rc != 0:
        return True, 'assembler/linker rejects the output: ' + log.strip()[-400:]
    rc, log = run_native([exe], 10)
    if rc != 0:
        return True, 'compiled program: exit %s %s' % (rc, log.strip()[-300:])
    # compiler-side memory error that happened to produce good code
    fresh()
    return sanitized(work, t, fresh) or (False, 'native run agrees with the reference')
