#!/usr/bin/env python3
"""Decides one property of /repo: every proof obligation generated from its current source
must be discharged.  Usage: check.py C01 [quick|thorough]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'verifier'))
sys.setrecursionlimit(1000000)
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
START = time.time()
SAFE = {'C04': False, 'C05': False, 'C14': True}

TRUSTED = [
    'the verifier in /verif/verifier (symbolic execution of go/ssa, contracts, storage invariant) and z3 4.8.12',
    'go/ssa and go/types of golang.org/x/tools give the meaning of the Go source',
    'the storage behind abstract.Storage: an operation either fails with an error and no effect or has its documented effect; '
    'Connect is idempotent; ReadTargets/ReadSources list in insertion order and return fresh slices',
    'each interface of internal/abstract has exactly one implementation in the non-test, non-mock code (checked on every run), whose zero-argument wiring is that of NewGraph',
    'termination of loops is not proved (partial correctness)',
    'index and length arithmetic (int) is treated as mathematical; int32 arithmetic on runes is checked for overflow',
]


def sh(cmd, cwd, out=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, (p.stdout or b'').decode(errors='replace') if out is None else '', p.stderr.decode(errors='replace')


def load(tmp):
    """SSA of the current source of /repo"""
    src = os.path.join(HERE, 'verifier', 'ssadump')
    exe = os.path.join(tmp, 'ssadump')
    rc, o, e = sh(['go', 'build', '-o', exe, '.'], src, timeout=600)
    if rc:
        raise SystemExit('cannot build ssadump: ' + e)
    rc, o, e = sh(['go', 'list', './...'], REPO)
    if rc:
        raise SystemExit('go list: ' + e)
    pk = [p for p in o.split() if '/internal/mock' not in p]
    f = os.path.join(tmp, 'ssa.json')
    with open(f, 'wb') as out:
        rc, o, e = sh([exe, REPO] + pk, REPO, out)
    if rc:
        raise SystemExit('ssadump: ' + e)
    from engine import Program
    return Program(f)


def verify(prop, prog, tier):
    """[(Obl)], info"""
    import solve
    t = 20 if tier == 'thorough' else 10
    retry = [(None, 20, 7), ('z3-new', 20, 1)] if tier == 'quick' else [(None, 60, 7), ('z3-new', 60, 1), (None, 60, 42)]
    if prop in SAFE:
        import safe
        m, exs = safe.run_safe(prog, SAFE[prop])
        obls = [o for ex in exs for o in ex.obls if prop in o.props]
        solve.discharge(obls, t, retry)
        info = {'functions': [ex.fn for ex in exs], 'inlined': sorted(set(f for ex in exs for f in ex.inlined)),
                'assumed': sorted(set(a for ex in exs for a in ex.assumed)), 'loops': {k: v[-1] for k, v in m.loop_log.items()}}
    else:
        import driver
        obls, info = driver.check(prog, prop, tier, t, retry)
    info['solver'] = dict(solve.STATS)
    return obls, info


def replay(prop, tmp, budget, seed):
    """search for a concrete history of the real code that breaks the property: (report or None, note)"""
    rep = {}
    names = ['base', 'graph', 'internal']
    notes = []
    for use in (names, names[:2]):
        ov = {'Replace': {os.path.join(REPO, n + '_verif_test.go'): os.path.join(HERE, 'replay', n + '_verif_test.go') for n in use}}
        # the repository's own tests of the package are left out
        f = os.path.join(tmp, 'overlay.json')
        json.dump(ov, open(f, 'w'))
        exe = os.path.join(tmp, 'replay.test')
        rc, o, e = sh(['go', 'test', '-vet=off', '-overlay', f, '-c', '-o', exe, '.'], REPO, timeout=300)
        if rc == 0:
            break
        notes.append('replay harness (%s) does not build: %s' % (', '.join(use), e[:600]))
    else:
        return None, '\n'.join(notes)
    out = os.path.join(tmp, 'replay.txt')
    env = dict(ENV, VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_BUDGET=str(budget), VERIF_OUT=out)
    try:
        p = subprocess.run([exe, '-test.run', 'TestVerifReplay', '-test.timeout', '%ds' % (budget * 4 + 60)], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget * 4 + 90)
        o = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        o = 'replay ran out of time'
    if os.path.exists(out):
        return open(out).read(), '\n'.join(notes)
    return None, '\n'.join(notes + [o[-2000:]])


def known(prop):
    f = os.path.join(HERE, 'known-findings')
    r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                r.append(l.split(' ', 2)[2])
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tmp = tempfile.mkdtemp(prefix='verif.')
    os.environ['VERIF_TMP'] = tmp
    try:
        rc = run(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, seed, tmp):
    prog = load(tmp)
    obls, info = verify(prop, prog, tier)
    # obligations of other properties the proof leans on: an open one is only reported if the real code shows that this property fails
    support = [o for o in obls if prop not in o.props]
    obls = [o for o in obls if prop in o.props]
    bad = [o for o in obls if o.res != 'unsat']
    weak = [o for o in support if o.res != 'unsat']
    by = {}
    for o in obls:
        k = ('syntactic' if o.out == 'syntactic' else 'z3') if o.res == 'unsat' else 'open'
        by[k] = by.get(k, 0) + 1
    samples = []
    for o in sorted(obls, key=lambda o: -o.secs)[:3] + obls[:2]:
        samples.append('%s: %s [%s] at %s: %s (%.2fs)' % (o.fn, o.name, o.kind, o.where, o.res, o.secs))
    kinds = {}
    for o in obls:
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    cov = {'obligations': len(obls), 'supporting_obligations': len(support), 'supporting_discharged': len(support) - len(weak), 'discharged': len(obls) - len(bad), 'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
           'trusted_base': TRUSTED, 'by_back_end': by, 'by_kind': kinds, 'functions_under_contract': sorted(set(info['functions'])), 'functions_inlined': info['inlined'],
           'loop_invariants': info.get('loops', {}), 'solver': info['solver'], 'samples': samples}
    cov.update(info.get('extra', {}))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': sorted(info['assumed'] + info.get('assumptions', []))}
    viol = 0
    rc = 0
    if not obls:
        print('no obligation was generated for ' + prop)
        return 2
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    text = None
    if bad or weak:
        used = time.time() - START
        budget = max(20, min(60 if tier == 'quick' else 200, 700 - used))
        text, note = replay(prop, tmp, budget, seed)
    if weak and not bad:
        print('%d obligations of other properties are open; %s' % (len(weak), 'the real code fails' if text else 'no failing history of this property was found'))
        cov['open_obligations_of_other_properties'] = ['%s: %s [%s] at %s' % (o.fn, o.name, o.kind, o.where) for o in weak[:20]]
    if bad or text:
        for o in bad[:10]:
            print('not discharged: %s: %s [%s] at %s (%s)' % (o.fn, o.name, o.kind, o.where, o.res))
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\n\n' % prop)
            if text:
                f.write('failing history of the real code\n' + text + '\n(repeat: go test with the overlay of /verif/replay, VERIF_PROP=%s VERIF_SEED=%d)\n\n' % (prop, seed))
            else:
                f.write('no failing input was found by running the real code\n' + note + '\n\n')
            f.write('obligations that are not discharged\n')
            for o in bad[:50] + weak[:20]:
                f.write('%s: %s [%s] at %s\n  verifier: %s %s\n  goal: %s\n' % (o.fn, o.name, o.kind, o.where, o.res, o.out[:300], repr(o.goal)[:600]))
        viol = 1
        rc = 1
        cov['open_obligations'] = ['%s: %s [%s] at %s' % (o.fn, o.name, o.kind, o.where) for o in bad[:50]]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if text else ' no-failing-input-found'))
    ev['violations'] = viol
    ev['wall_s'] = round(time.time() - START, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1fs' % (prop, len(obls), len(obls) - len(bad), len(set(info['functions'])), ev['wall_s']))
    return rc


main()
