"""One property check: run the program families and unit harnesses of the property, replay counterexamples, write evidence."""
import hashlib, json, os, shutil, sys, threading, time
from . import core, e2e, prog, unit

NOVERDICT = ('unsupported',)  # something the encoder does not model: inconclusive, never a violation
KNOWN = os.path.join(core.VERIF, 'known-findings.json')


class Check:
    """progs: [fam(tier) -> [Prog]]; units: [U]; level/notes go to the evidence."""

    def __init__(self, pid, progs=(), units=(), level='translation_validation', bounds='', outside='', deadline=(480, 5400), technique=''):
        self.technique = technique
        self.pid, self.progs, self.units, self.level, self.bounds, self.outside, self.deadline = pid, list(progs), list(units), level, bounds, outside, deadline


def known_findings(pid):
    try:
        return [f for f in json.load(open(KNOWN))['findings'] if f['property'] == pid]
    except (OSError, ValueError, KeyError):
        return []


def run_programs(work, progs, deadline, batch=24, solver_ms=10000, stop_after=60):
    """-> (results, [(prog, error)], programs not run)"""
    n = max(1, min(batch, (len(progs) + core.NCPU - 1) // core.NCPU))
    nb = (len(progs) + n - 1) // n
    batches = [progs[i::nb] for i in range(nb)]  # neighbours cost alike: spread them
    nfail, lock = [0], threading.Lock()

    def one(ib):
        i, b = ib
        left = deadline - time.time()
        if left < 5 or nfail[0] >= stop_after:
            return None
        bc = work.harness_bc(prog.emit_batch(b), 'b%d' % i)
        r = core.run_symx(bc, work.path('b%d.json' % i), max_time=max(5, min(300, int(left))), solver_ms=solver_ms, max_errors=100)
        for e in ('.c', '.bc', '.0.bc', '.1.bc'):
            os.unlink(work.path('b%d%s' % (i, e)))
        with lock:
            nfail[0] += len(set(dict(e['choices']).get('prog') for e in r.get('errors', [])))
        return r
    res = core.pmap(one, list(enumerate(batches)))
    fails, skipped = [], 0
    for b, r in zip(batches, res):
        if r is None:
            skipped += len(b)
            continue
        for e in r.get('errors', []):
            k = dict(e['choices']).get('prog')
            if k is not None:
                fails.append((b[k], e))
    return [r for r in res if r is not None], fails, skipped


def total(res, key):
    return sum(r.get(key, 0) for r in res)


def main(checks):
    if len(sys.argv) != 3 or sys.argv[1] not in checks or sys.argv[2] not in ('quick', 'thorough'):
        print('usage: check.py <property> quick|thorough; properties: ' + ' '.join(sorted(checks)))
        return 2
    pid, tier = sys.argv[1:3]
    ck, t0 = checks[pid], time.time()
    evd = os.path.join(core.VERIF, 'evidence')
    rep = os.path.join(evd, 'replay')
    os.makedirs(rep, exist_ok=True)
    for d in os.listdir(rep):
        if d.startswith(pid + '-'):
            shutil.rmtree(os.path.join(rep, d))
    work = core.Work('%s-%s' % (pid, tier))
    try:
        work.build_bc()
        deadline = t0 + ck.deadline[0 if tier == 'quick' else 1]
        progs, seen = [], set()
        for f in ck.progs:
            for p in f(tier):
                k = (p.src, p.pre, p.lpre, p.expect, tuple(p.params))
                if k not in seen:
                    seen.add(k)
                    progs.append(p)
        tp = time.time()
        # unit harnesses are few and long: start them beside the batches
        ures = []
        ut = threading.Thread(target=lambda: ures.extend(unit.run_units(work, ck.units, tier)))
        if ck.units:
            ut.start()
        pres, pfails, skipped = run_programs(work, progs, deadline) if progs else ([], [], 0)
        if ck.units:
            ut.join()
        cases = []  # (kind, identity, message, replay function)
        seenp = set()
        unsup = [(x, e) for x, e in pfails + [(u, e) for u, r in ures for e in r.get('errors', [])] if e['kind'] in NOVERDICT]
        pfails = [(p, e) for p, e in pfails if e['kind'] not in NOVERDICT]
        for p, e in sorted(pfails, key=lambda x: x[1]['kind'] != 'assert'):
            if p.tag not in seenp:
                seenp.add(p.tag)
                cases.append(({'program': p.tag, 'message': e['msg']}, lambda dest, p=p, e=e: e2e.replay(work, p, e, dest)))
        for u, r in ures:
            for e in r.get('errors', []):
                if e['kind'] in NOVERDICT:
                    continue
                cases.append(({'harness': u.entry, 'message': e['msg'], 'at': e['stack'][0].split(' ')[0] if e['stack'] else ''}, lambda dest, u=u, e=e: unit.replay(work, u, e, dest, tier)))
        known, hit, viol, unrep, tried = known_findings(pid), [], [], [], 0
        for ident, fn in cases:
            k = [f for f in known if all(ident.get(a) == b for a, b in f['match'].items())]
            if k:
                if k[0] not in hit:
                    hit.append(k[0])
                continue
            if len(viol) >= 5 or tried >= 25:
                continue
            tried += 1
            dest = os.path.join(rep, '%s-%d' % (pid, tried))
            try:
                ok, txt = fn(dest)
            except Exception as x:  # replay machinery failed: not a confirmed violation
                ok, txt = False, 'replay failed: %r' % x
            (viol if ok else unrep).append({'case': ident, 'result': txt, 'replay': dest})
            if not ok:
                shutil.rmtree(dest, ignore_errors=True)
        allr = pres + [r for _, r in ures]
        funcs = sorted(set(f for r in allr for f in r.get('functions', [])))
        srcs = repo_functions(funcs)
        compared = sum(r.get('covers', {}).get(c, 0) for r in pres for c in ('compared', 'rejected'))
        inconc = len(unsup) + total(allr, 'inconclusive') + sum(1 for r in allr if 'crashed' in r or not r.get('complete'))
        expl = ('Solver-based checking of /repo\'s current source compiled to LLVM bitcode. %d programs%s, %d unit harness runs. ' % (len(progs) - skipped, ' (%d skipped at the deadline)' % skipped if skipped else '', len(ures))
                + 'Bounds: %s Outside: %s' % (ck.bounds, ck.outside))
        cov = {
            'explanation': expl,
            'programs': len(progs) - skipped,
            'disagreements_checked': total(allr, 'assert_queries') + total(allr, 'asserts'),
            'traces_validated_against_impl': tried,
            'queries': total(allr, 'queries'), 'queries_sat': total(allr, 'sat'), 'queries_unsat': total(allr, 'unsat'), 'queries_unknown': total(allr, 'unknown'), 'queries_finite_domain': total(allr, 'table_queries'), 'finite_domain_verdicts_confirmed_by_z3': total(allr, 'table_cross'),
            'solver_s': round(total(allr, 'solver_s'), 2), 'engine_s': round(total(allr, 'wall_s'), 2),
            'programs_compared_witness': compared, 'inconclusive': inconc, 'not_run': skipped,
            'functions_encoded': len(srcs), 'functions': srcs[:400],
            'units': [{'harness': u.file, 'entry': u.entry, 'bounds': u.sets[tier], 'complete': r.get('complete', False), 'stopped': r.get('stopped', r.get('crashed', '')), 'paths': r.get('paths', 0), 'queries': r.get('queries', 0), 'solver_s': r.get('solver_s', 0), 'reached': r.get('covers', {}), 'unsupported': r.get('unsupported', [])} for u, r in ures],
            'samples': [p.text()[:300] for p in progs[::max(1, len(progs) // 8)]][:8] or [u.entry + ' ' + json.dumps(u.sets[tier]) for u, _ in ures][:8],
            'violations': viol, 'not_reproduced': unrep, 'known_findings': [f['what'] for f in hit],
        }
        if ck.level == 'model_checking':
            cov['states'], cov['transitions'] = total(allr, 'paths'), total(allr, 'steps')
        else:
            cov['paths'], cov['instructions'] = total(allr, 'paths'), total(allr, 'steps')
        vac = []
        if progs and not pfails and not skipped and not inconc and compared < len(progs):
            vac.append('only %d of %d programs reached the comparison' % (compared, len(progs)))
        for u, r in ures:
            for c in u.need:
                if not r.get('errors') and r.get('complete') and not r.get('covers', {}).get(c):
                    vac.append('%s never reached "%s"' % (u.entry, c))
        cov['vacuity_warnings'] = vac
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': ck.level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
        json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    finally:
        work.close()
    for f in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s %s: %d programs, %d unit runs, %d paths, %d queries (%.1f s solver), %d inconclusive, %d not reproduced, %.1f s' % (pid, tier, len(progs) - skipped, len(ures), total(allr, 'paths'), cov['queries'], cov['solver_s'], inconc, len(unrep), time.time() - t0))
    for w in vac:
        print('WARNING: ' + w)
    for _, e in unsup[:3]:
        print('inconclusive: not encoded: %s' % e['msg'][:200])
    for u in unrep[:5]:
        print('not reproduced: %s' % json.dumps(u)[:400])
    for v in viol:
        print('  %s: %s' % (json.dumps(v['case'])[:300], v['result'][:300].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    return 1 if viol else 0


_names = None


def repo_functions(funcs):
    """functions executed symbolically that are defined in /repo (library models and harness code left out)"""
    import re
    global _names
    if _names is None:
        _names = set()
        for d, _, fs in os.walk(os.path.join(core.REPO, 'src')):
            for f in fs:
                if f.endswith('.c'):
                    _names.update(re.findall(r'^[A-Za-z_][\w \*]*?\b(\w+)\s*\(', open(os.path.join(d, f), errors='replace').read(), re.M))
    return [f for f in funcs if re.sub(r'\.\d+$', '', f) in _names]
