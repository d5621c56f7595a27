#!/usr/bin/env python3
"""Development tool: applies one-line mutants to scratch copies of /repo and reports which checks notice.
usage: mutate.py FILE.json [-p PROP,..] [-k substring]   FILE.json: [{"props":[..],"file":..,"old":..,"new":..,"n":occurrence}]"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = json.loads(open(sys.argv[1]).read(), strict=False)
only = None; key = ''
if '-p' in sys.argv: only = set(sys.argv[sys.argv.index('-p')+1].split(','))
if '-k' in sys.argv: key = sys.argv[sys.argv.index('-k')+1]
for i, m in enumerate(muts):
    if only and not only & set(m['props']): continue
    if key and key not in m['file'] + m['old'] + m['new']: continue
    d = tempfile.mkdtemp(prefix='cxomut')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', d])
        p = os.path.join(d, m['file'])
        s = open(p).read()
        n = m.get('n', 1)
        parts = s.split(m['old'])
        if len(parts) <= n:
            print('#%d: text not found in %s: %r' % (i, m['file'], m['old'][:60])); continue
        s = m['old'].join(parts[:n]) + m['new'] + m['old'].join(parts[n:])
        open(p, 'w').write(s)
        for pr in m['props']:
            if only and pr not in only: continue
            r = subprocess.run([V + '/check.sh', pr, 'quick', '-noevidence'], env=dict(os.environ, CXO_REPO=d, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sig = [l for l in r.stdout.splitlines() if l.startswith('scenario ')]
            v = 'CAUGHT' if r.returncode == 1 else ('missed' if r.returncode == 0 else 'ERROR rc=%d %s' % (r.returncode, r.stdout[-600:]))
            print('#%d %s %s [%s -> %s] %s' % (i, pr, v, m['old'].strip()[:50].replace('\n', '|'), m['new'].strip()[:50].replace('\n', '|'), sig[0][:150] if sig else ''), flush=True)
    finally:
        shutil.rmtree(d)
