#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds seeded bugs. SPEC.py defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)], pkg, test)].
Each is confirmed in a scratch copy: applies, builds, passes the stable tests, demo passes without and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration test against the tree in the current directory (an overlay, nothing is written there).
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$PWD/go.work" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
pkg=$PWD/%s
printf '{"Replace": {"%%s/zz_seeded_demo_test.go": "%%s/demo.go.txt"}}' "$pkg" "$d" > "$t/overlay.json"
cd "$pkg" && go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestSeededDemo$' .
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def env(w):
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin', GOROOT='/opt/veriftools/go1.24.13', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOWORK=w + '/go.work', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
    return e
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open('/opt/vp/BASELINE.json'))
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    out = os.path.join(V, 'seeded', b['id'])
    if os.path.exists(out) and b['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        shutil.rmtree(w); sh(['cp', '-a', '/repo', w])
        sh(['git', '-C', w, 'checkout', '--', '.'])
        d = tempfile.mkdtemp(prefix='demo', dir='/tmp')
        open(d + '/demo.sh', 'w').write(DEMO % b['pkg']); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.go.txt', 'w').write(b['test'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh(['bash', d + '/demo.sh'], cwd=w, env=env(w))
        if r.returncode != 0:
            print(b['id'], 'DEMO FAILS UNCHANGED', r.stdout[-2500:]); continue
        bad = False
        for f, old, new in b['edits']:
            s = open(os.path.join(w, f)).read()
            if s.count(old) != 1:
                print(b['id'], f, 'matches', s.count(old)); bad = True; break
            open(os.path.join(w, f), 'w').write(s.replace(old, new))
        if bad: continue
        r = sh('go build ./... ./x/bench/... ./x/ftdc/...', cwd=w, env=env(w))
        if r.returncode != 0:
            print(b['id'], 'BUILD', r.stdout[-2000:]); continue
        r = sh(['bash', d + '/demo.sh'], cwd=w, env=env(w))
        if r.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH BUG'); continue
        demo = r.stdout[-400:]
        pk = sh("go list -e ./... ./x/bench/... ./x/ftdc/... | grep -v '^github.com/tychoish/birch/x/ftdc/metrics$'", cwd=w, env=env(w)).stdout.split()
        r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-p', '1', '-timeout', '10m'] + pk, cwd=w, env=env(w))
        passed = set(); failed = set()
        for l in r.stdout.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            if j.get('Action') in ('fail',): failed.add((j['Package'], j.get('Test', '')))
        if failed or r.returncode:
            print(b['id'], 'TESTS FAIL', sorted(failed)[:8]); continue
        diff = sh(['git', '-C', w, 'diff']).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(d, out)
        print(b['id'], 'OK', demo.replace('\n', ' | ')[:200])
    finally:
        subprocess.run(['rm', '-rf', w]); 
        try: shutil.rmtree(d)
        except Exception: pass
