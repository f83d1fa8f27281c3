#!/usr/bin/env python3
"""Runs every proof on changed copies of /repo and prints what stays open.
sweep.py refactors.py [ids]      behaviour-preserving edits (nothing may stay open)
sweep.py seeds/X.py [ids]        planted bugs (which properties notice)
-l: only apply, build and test
-f: only the functions under contract that the edit reaches (fast; checks themselves always run everything)"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'verifier'))
sys.setrecursionlimit(1000000)
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
def sh(c, cwd):
    return subprocess.run(c, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def apply(edits, w):
    for path, old, new in edits:
        p = os.path.join(w, path)
        t = open(p).read() if os.path.exists(p) else ''
        if old == '':
            t += new
        elif t.count(old) != 1:
            return 'edit of %s matches %d times' % (path, t.count(old))
        else:
            t = t.replace(old, new)
        open(p, 'w').write(t)
    r = sh('go build . && go test $(go list ./... | grep -v -e /mock/ -e /concrete/detail$) 2>&1 | grep -v "no test files"', w)
    return r.stdout if 'FAIL' in r.stdout or r.returncode and 'ok' not in r.stdout else ''
def graph(path):
    """function -> (text without lines, what it may run)"""
    d = json.load(open(path))
    fs = d['funcs'] if isinstance(d['funcs'], list) else list(d['funcs'].values())
    names = {f['name'] for f in fs}
    meth = {}
    for f in fs:
        meth.setdefault(f['name'].rsplit('.', 1)[-1], []).append(f)
    out = {}
    for f in fs:
        uses = set()

        def walk(x, key=None):
            if isinstance(x, dict):
                if 'invoke' in x:
                    c = x['iface'].rsplit('.', 1)[0].rsplit('/', 1)[-1]
                    l = [g['name'] for g in meth.get(x['invoke'], []) if g['pkg'].rsplit('/', 1)[-1] == c] or [g['name'] for g in meth.get(x['invoke'], [])]
                    uses.update(l)
                return {k: walk(v, k) for k, v in x.items() if k != 'line'}
            if isinstance(x, list):
                return [walk(v) for v in x]
            if isinstance(x, str) and x in names:
                uses.add(x)
            return x
        t = json.dumps(walk({k: v for k, v in f.items() if k not in ('name', 'file')}), sort_keys=True)
        out[f['name']] = (t, uses)
    return out, json.dumps(d['types'], sort_keys=True) if False else ''
def affected(base, new, short, under):
    b, n = graph(base)[0], graph(new)[0]
    ch = {f for f in n if f not in b or b[f][0] != n[f][0]} | {f for f in b if f not in n}
    out = set()
    for f in n:
        if short(f) not in under:
            continue
        seen, todo = {f}, [f]
        while todo:
            for g in n.get(todo.pop(), ('', ()))[1]:
                if g not in seen and short(g) not in under:
                    seen.add(g)
                    todo.append(g)
        if seen & ch:
            out.add(short(f))
    return out, {short(f) for f in ch}
def prove(w, tmp, fast=False):
    exe = os.path.join(tmp, 'ssadump')
    r = sh('go build -o %s .' % exe, os.path.join(os.path.dirname(HERE), 'verifier', 'ssadump'))
    r = sh('%s %s $(go list ./... | grep -v /internal/mock) > %s/ssa.json' % (exe, w, tmp), w)
    if r.returncode:
        print(r.stdout)
        return {}
    import engine, driver, safe, solve
    prog = engine.Program(tmp + '/ssa.json')
    by = {}
    retry = [(None, 20, 7), ('z3-new', 20, 1)]
    os.environ['VERIF_TMP'] = tmp
    for look in (False, True):
        m, exs = safe.run_safe(prog, look)
        obls = [o for ex in exs for o in ex.obls if (('C14' in o.props) if look else ({'C04', 'C05'} & set(o.props)))]
        solve.discharge(obls, 10, retry)
        for o in obls:
            if o.res != 'unsat':
                for p in o.props:
                    if (p == 'C14') == look:
                        by.setdefault(p, []).append(o)
    only = None
    if fast:
        import contracts
        r = sh('%s /repo $(go list ./... | grep -v /internal/mock) > %s/base.json' % (exe, tmp), '/repo')
        hit, ch = affected(tmp + '/base.json', tmp + '/ssa.json', engine.short, set(contracts.CONTRACTS))
        print('  changed:', ' '.join(sorted(ch)), ' proofs:', ' '.join(sorted(hit)))
        only = lambda t: t[0] == 'fn' and t[1] in hit
    obls, info = driver.check(prog, None, 'quick', 10, retry, only)
    for o in obls:
        if o.res != 'unsat':
            for p in o.props:
                by.setdefault(p, []).append(o)
    return by
if __name__ == '__main__':
    light, fast = '-l' in sys.argv, '-f' in sys.argv
    args = [a for a in sys.argv[1:] if a not in ('-l', '-f')]
    files = [a for a in args if a.endswith('.py')]
    only = set(args) - set(files)
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            if only and s['id'] not in only:
                continue
            t0 = time.time()
            tmp = tempfile.mkdtemp(prefix='sweep.')
            w = tmp + '/repo'
            sh('cp -a /repo %s' % w, '/')
            err = apply(s['edits'], w)
            if err:
                print(s['id'], 'DOES NOT APPLY:', err[-800:])
            elif light:
                print(s['id'], 'applies')
            else:
                pid = os.fork()
                if not pid:
                    rc = 1
                    try:
                        by = prove(w, tmp, fast)
                        names = {}
                        for p, os_ in by.items():
                            for o in os_:
                                names.setdefault('%s: %s [%s] (%s) %s' % (o.fn, o.name, o.kind, o.res, o.where), []).append(p)
                        want = s.get('property')
                        print(s['id'], '%.0fs' % (time.time() - t0), 'open: ' + ' '.join('%s:%d' % (p, len(by[p])) for p in sorted(by)) if by else 'QUIET', '' if not want else 'CAUGHT' if want in by else 'MISSED')
                        for n in list(names)[:12]:
                            print('     ', n[:260], '' if len(names[n]) > 10 else names[n])
                        rc = 0
                    finally:
                        sys.stdout.flush()
                        os._exit(rc)
                os.waitpid(pid, 0)
            sys.stdout.flush()
            shutil.rmtree(tmp)
