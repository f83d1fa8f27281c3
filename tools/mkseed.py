#!/usr/bin/env python3
"""builds and confirms planted bugs: mkseed.py seeds/FILE.py ...  (each defines SEEDS)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
DEMO = '''#!/bin/bash
# exit 0: the property holds for this history; non-zero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<X
{"Replace": {"$PWD/graph_test.go": "", "$PWD/zz_lib_test.go": "$D/lib_test.go", "$PWD/zz_demo_test.go": "$D/demo_test.go"}}
X
timeout 200 go test -count=1 -vet=off -overlay "$T/o.json" -run TestDemo .
'''
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
bad = 0
only = set(a for a in sys.argv[1:] if not a.endswith('.py'))
for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(OUT, s['id'])
        tmp = tempfile.mkdtemp(prefix='seed.')
        w = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % w, '/')
        err = ''
        for path, old, new in s['edits']:
            p = os.path.join(w, path)
            t = open(p).read()
            if t.count(old) != 1:
                err = 'edit of %s matches %d times' % (path, t.count(old))
                break
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', w).stdout
        if not diff.startswith('diff'):
            err = err or 'gofmt or empty diff: ' + diff[:200]
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(HERE + '/dlib_test.go', d + '/lib_test.go')
        head = 'package semnet\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(['testing'] + s.get('imports', []))) + ')\n\n'
        open(d + '/demo_test.go', 'w').write(head + s['demo'].strip() + '\n')
        sh('gofmt -w demo_test.go', d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if not err:
            r = sh('bash %s/demo.sh' % d, '/repo')
            if r.returncode:
                err = 'demo fails on the unchanged tree: ' + r.stdout[-1500:]
        if not err:
            r = sh('go build . && go test $(go list ./... | grep -v -e /mock/ -e /concrete/detail$) 2>&1', w)
            if r.returncode:
                err = 'patched tree does not build or pass: ' + r.stdout[-1500:]
        if not err:
            r = sh('bash %s/demo.sh' % d, w)
            if r.returncode == 0 or 'build failed' in r.stdout:
                err = 'demo passes with the patch: ' + r.stdout[-600:]
            else:
                msg = [l.strip() for l in r.stdout.split('\n') if '_test.go' in l or 'panic:' in l][:1]
        if not err:
            # lines added by our own fixes must not be the ones that change
            base = sh("git blame -s HEAD -- . >/dev/null 2>&1; git diff -U0 | grep -c '^-[^-]'", w).stdout
            r = sh("for f in $(git diff --name-only); do git diff -U0 -- $f | sed -n 's/^@@ -\\([0-9]*\\),*\\([0-9]*\\) .*/\\1 \\2/p' | while read a n; do n=${n:-1}; [ $n -gt 0 ] && git blame -s -L $a,+$n HEAD -- $f; done; done", w).stdout
            new = [l for l in r.split('\n') if l and l.split()[0].lstrip('^')[:7] not in BASE] if (BASE := set(x[:7] for x in sh('git rev-list 5c69425', w).stdout.split())) else []
            if new:
                print('   note: touches lines of a fix:', new[:3])
            if not r.strip():
                print('   note: only adds lines')
        print(s['id'], 'OK ' + str(msg) if not err else 'FAIL ' + err)
        if err:
            bad += 1
            shutil.rmtree(d)
        shutil.rmtree(tmp)
sys.exit(bad > 0)
