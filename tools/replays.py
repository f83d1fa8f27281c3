#!/usr/bin/env python3
"""which planted bugs the replay harness shows on the real code: replays.py [ids]"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
for i in sorted(sys.argv[1:] or os.listdir(TOP + '/seeded')):
    d = TOP + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='rep.')
    w = tmp + '/repo'
    subprocess.run('cp -a /repo %s && git -C %s apply %s/patch.diff' % (w, w, d), shell=True, check=True)
    names = ['base', 'graph', 'internal']
    json.dump({'Replace': {w + '/%s_verif_test.go' % n: TOP + '/replay/%s_verif_test.go' % n for n in names}}, open(tmp + '/o.json', 'w'))
    r = subprocess.run(['go', 'test', '-vet=off', '-overlay', tmp + '/o.json', '-c', '-o', tmp + '/t', '.'], cwd=w, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(i, prop, 'BUILD', r.stderr[:300])
        continue
    t0 = time.time()
    out = tmp + '/out'
    r = subprocess.run([tmp + '/t', '-test.run', 'TestVerifReplay', '-test.timeout', '300s'], cwd=tmp, env=dict(ENV, VERIF_PROP=prop, VERIF_SEED='1', VERIF_BUDGET='30', VERIF_OUT=out), capture_output=True, text=True)
    print('%-22s %s %4.1fs %s' % (i, prop, time.time() - t0, open(out).read().replace('\n', ' | ')[:160] if os.path.exists(out) else 'NOT SHOWN ' + r.stdout[-200:].replace('\n', ' ')))
    sys.stdout.flush()
    shutil.rmtree(tmp)
