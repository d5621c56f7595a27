#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from an edit script and a demonstration test.
usage: mkseed.py SPEC.py   SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)], pkg, test (Go source of the demonstration), optional prep (bash)"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Runs the test beside this file on a copy of the tree, with stand-ins for the dependencies that cannot be fetched.
set -u
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/cxodemo.XXXXXX)
trap 'find "$T" -delete 2>/dev/null' EXIT
mkdir "$T/src"
tar cf - --exclude=.git --exclude='*_test.go' data skyobject node cxoutils | tar xf - -C "$T/src" || exit 99
tar xzf "$here/deps.tgz" -C "$T" || exit 99
cd "$T/src" || exit 99
cat > go.mod <<'EOM'
module github.com/skycoin/cxo

go 1.23

require (
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
	github.com/boltdb/bolt v0.0.0
	github.com/DiSiqueira/GoTree v0.0.0
)
replace github.com/skycoin/net => ../deps/net
replace github.com/skycoin/skycoin => ../deps/skycoin
replace github.com/boltdb/bolt => ../deps/bolt
replace github.com/DiSiqueira/GoTree => ../deps/gotree
EOM
@PREP@
cp "$here/demo.go.txt" "./@PKG@/demo_test.go"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off TMPDIR="$T"
unset GOPATH
timeout 200 go test -vet=off -count=1 -timeout 150s -run '^TestDemo' "./@PKG@"
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(V, 'seeded', ns['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='cxoseed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        subprocess.call('cp -a /repo/go.mod /repo/go.sum %s/r/ 2>/dev/null' % w, shell=True)
        for f, old, new in ns['edits']:
            p = os.path.join(w, 'r', f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.go.txt', 'w').write(ns['test'])
        open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', ns['pkg']).replace('@PREP@', ns.get('prep', '')))
        os.chmod(d + '/demo.sh', 0o755)
        subprocess.check_call(['tar', 'czf', d + '/deps.tgz', '--sort=name', '--mtime=2020-01-01', '--owner=0', '--group=0', '-C', V, 'deps/bolt', 'deps/gotree', 'deps/net', 'deps/skycoin'])
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        orig = subprocess.check_output(['git', '-C', '/repo', 'show', '36760eb', '--stat', '--oneline'], text=True)
        # verify
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(ns['id'], 'unchanged:', r0.returncode, 'patched:', r1.returncode)
        if r0.returncode: print(r0.stdout[-2500:])
        print(r1.stdout[-700:] if r1.returncode else 'DEMO DOES NOT FAIL')
        if '-c' in sys.argv:
            c = subprocess.run([V + '/check.sh', ns['prop'], 'quick', '-noevidence'], env=dict(os.environ, CXO_REPO=w + '/r', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('check', ns['prop'], 'rc', c.returncode, [l[:300] for l in c.stdout.splitlines() if l.startswith(('VIOL', 'scenario'))][:4], c.stdout[-500:] if c.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(w)
main()
