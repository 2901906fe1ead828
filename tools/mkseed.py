#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds a planted bug from a spec file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG (directory of the demo test), TEST (Go source).
Checks in a scratch copy that it builds, passes the stable tests and that the demo tells it apart."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']
out = '/verif/seeded/' + ID
os.makedirs(out, exist_ok=True)
open(out + '/demo_test.go.txt', 'w').write(ns['TEST'])
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 iff the behaviour is as it should be; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
root="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$root/%s/zz_demo_test.go\\":\\"$t/zz_demo_test.go\\"}}" > "$t/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo' "./%s"
''' % (ns['PKG'], ns['PKG']))
os.chmod(out + '/demo.sh', 0o755)
json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
t = tempfile.mkdtemp(prefix='seed-')
w = t + '/repo'
subprocess.check_call(['cp', '-a', '/repo', w])
try:
    for f, a, b in ns['EDITS']:
        s = open(w + '/' + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(w + '/' + f, 'w').write(s.replace(a, b))
    subprocess.check_call(['gofmt', '-l'] + sorted({w + '/' + f for f, _, _ in ns['EDITS']}))
    d = subprocess.check_output(['git', '-C', w, 'diff'])
    open(out + '/patch.diff', 'wb').write(d)
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
    r = subprocess.run(['go', 'build', './...'], cwd=w, env=env); assert r.returncode == 0
    r = subprocess.run(['go', 'test', './...'], cwd=w, env=env, capture_output=True, text=True)
    print('tests with patch:', 'pass' if r.returncode == 0 else 'FAIL\n' + r.stdout[-1500:])
    a = subprocess.run([out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run([out + '/demo.sh'], cwd=w, capture_output=True, text=True)
    print('demo unchanged:', a.returncode, ' with patch:', b.returncode)
    if a.returncode: print(a.stdout[-1500:], a.stderr[-500:])
    if not b.returncode: print(b.stdout[-500:])
    ok = r.returncode == 0 and a.returncode == 0 and b.returncode != 0
    print(ID, 'OK' if ok else 'REJECTED')
finally:
    shutil.rmtree(t)
