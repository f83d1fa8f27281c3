#!/usr/bin/env python3
"""Mutation run: single edits that compile and pass the tests, and whether some obligation fails on them.
mutants.py N SEED [file part]      N edits picked at random; prints those on which everything is still proved"""
import collections, json, os, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sweep
import engine, driver, safe, solve, contracts, full
ENV = sweep.ENV
PAR = int(os.environ.get('PAR', '5'))


def one(m, tmp):
    w = tmp + '/repo'
    sweep.sh('cp -a /repo %s' % w, '/')
    p = w + m['file'][len('/repo'):]
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['From']] + m['New'].encode() + b[m['To']:])
    if sweep.sh('go build . ./internal/concrete/...', w).returncode:
        sweep.sh('goimports -w %s' % p, w)
        if sweep.sh('go build . ./internal/concrete/...', w).returncode:
            return 'does not compile', None
    r = sweep.sh('go test $(go list ./... | grep -v -e /mock/ -e /concrete/detail$) 2>&1 | grep -v "no test files"', w)
    if 'FAIL' in r.stdout or 'ok' not in r.stdout:
        return 'fails the tests', None
    exe = sweep.EXE
    sweep.sh('%s %s $(go list ./... | grep -v /internal/mock) > %s/ssa.json' % (exe, w, tmp), w)
    try:
        prog = engine.Program(tmp + '/ssa.json')
    except Exception as e:
        return 'killed', [str(e)[:100]]
    os.environ['VERIF_TMP'] = tmp
    hit, ch = sweep.affected(sweep.BASE, tmp + '/ssa.json', engine.short, set(contracts.CONTRACTS))
    if not ch:
        return 'same code', None
    for look in (False, True):
        x, exs = safe.run_safe(prog, look)
        obls = [o for ex in exs for o in ex.obls if (('C14' in o.props) if look else ({'C04', 'C05'} & set(o.props)))]
        solve.discharge(obls, 4, [])
        bad = [o for o in obls if o.res != 'unsat']
        if bad:
            return 'killed', ['%s %s' % (o.name[:60], sorted(set(p for o in bad for p in o.props)))for o in bad[:1]]
    obls, info = driver.check(prog, None, 'quick', 4, [], lambda t: t[0] == 'fn' and t[1] in hit)
    bad = [o for o in obls if o.res != 'unsat']
    if bad:
        return 'killed', ['%s %s' % (o.name[:60], o.fn) for o in bad[:1]] + [sorted(set(p for o in bad for p in o.props))]
    return 'SURVIVES', sorted(hit)


if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    part = sys.argv[3] if len(sys.argv) > 3 else ''
    top = tempfile.mkdtemp(prefix='mutants.')
    sweep.EXE, sweep.BASE = top + '/ssadump', top + '/base.json'
    sweep.sh('go build -o %s .' % sweep.EXE, os.path.join(os.path.dirname(HERE), 'verifier', 'ssadump'))
    sweep.sh('%s /repo $(go list ./... | grep -v /internal/mock) > %s' % (sweep.EXE, sweep.BASE), '/repo')
    fs = [l for l in sweep.sh("find /repo -name '*.go' ! -name '*_test.go' ! -path '*/mock/*' ! -path '*/abstract/*'", '/').stdout.split() if part in l]
    sweep.sh('go build -o %s/mutate .' % top, HERE + '/mutate')
    ms = [json.loads(l) for l in subprocess.run([top + '/mutate'] + fs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines()]
    rnd = random.Random(seed)
    ms = [m for m in ms if not m['What'].startswith('call of') or rnd.random() < 0.15]
    rnd.shuffle(ms)
    print(len(ms), 'edits in', len(fs), 'files')
    driver.JOBS, driver.FEW = 2, 2
    counts = collections.Counter()
    live = {}
    ms = ms[:n]

    def reap():
        pid, _ = os.waitpid(-1, 0)
        if pid not in live:
            return
        m, tmp = live.pop(pid)
        try:
            k, x = json.load(open(tmp + '/result'))
        except Exception:
            k, x = 'no result', None
        counts[k] += 1
        if k in ('SURVIVES', 'no result') or k == 'killed' and os.environ.get('ALL'):
            src = open(m['file'], 'rb').read()
            print('%s %s:%d %s: %s\n      %s -> %s   %s' % (k, m['file'][6:], m['Line'], m['Func'], m['What'], ' '.join(src[m['From']:m['To']].decode().split())[:140], ' '.join(m['New'].split())[:140], x))
        sys.stdout.flush()
        shutil.rmtree(tmp)
    for m in ms:
        while len(live) >= PAR:
            reap()
        tmp = tempfile.mkdtemp(prefix='m.', dir=top)
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            try:
                json.dump(one(m, tmp), open(tmp + '/result', 'w'))
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        live[pid] = (m, tmp)
    while live:
        reap()
    print(dict(counts))
    shutil.rmtree(top)
