#!/usr/bin/env python3
"""seed.py NAME...: builds /verif/seeded/<id> from tools/seeds/<id>.py and confirms it in a scratch copy.
A spec defines prop, pkg, edits=[(file, old, new)], demo (Go test source), needs, breaks."""
import sys, os, subprocess, json, shutil, tempfile, runpy
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
DEMO = '''#!/bin/bash
# runs demo_test.go inside package %(pkg)s of the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
root=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export DEMO_DIR="$tmp"
echo "{\\"Replace\\": {\\"$root/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
cd "$root/%(pkg)s" && timeout 240 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' .
'''
ENV = dict(os.environ)
def sh(cmd, cwd, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(cwd):
    b = json.load(open('/opt/vp/BASELINE.json'))
    names = b if isinstance(b, list) else b['stable']
    r = sh('rm -rf test memdb/test wal/test; go test -json -vet=off -count=1 -timeout 3m ./... > /tmp/seedtest.json; rm -rf test memdb/test wal/test; python3 /opt/vp/results.py /tmp/seedout.json gojson:/tmp/seedtest.json', cwd)
    o = json.load(open('/tmp/seedout.json'))
    return [n for n in names if n not in o['passed']]
for name in sys.argv[1:]:
    s = runpy.run_path(os.path.join(H, 'seeds', name + '.py'))
    out = os.path.join(V, 'seeded', name)
    wk = tempfile.mkdtemp(prefix='seedwk')
    try:
        repo = wk + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sh('git checkout -q -- .', repo)
        os.makedirs(out, exist_ok=True)
        open(out + '/demo_test.go', 'w').write(s['demo'].lstrip())
        open(out + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg']})
        os.chmod(out + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % out, repo)
        ok0 = r.returncode == 0
        if not ok0: print(name, 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-2000:])
        for f, a, b in s['edits']:
            t = open(repo + '/' + f).read()
            if t.count(a) != 1: print(name, 'edit matches', t.count(a), 'times:', a); sys.exit(1)
            open(repo + '/' + f, 'w').write(t.replace(a, b))
        own = sh('git diff cb7ed75 HEAD -U0 -- ' + ' '.join(sorted({f for f, _, _ in s['edits']})) + " | grep '^+'", repo).stdout.splitlines()
        gone = [l[1:] for l in sh('git diff -U0', repo).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
        if gone and all('+' + g in own for g in gone): print(name, 'ONLY CHANGES LINES OF FIX COMMITS')
        r = sh('go build ./...', repo)
        if r.returncode: print(name, 'BUILD', r.stdout); sys.exit(1)
        d = sh('git diff', repo).stdout
        open(out + '/patch.diff', 'w').write(d)
        bad = stable(repo)
        if bad: print(name, 'STABLE TESTS FAIL', bad)
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode == 0: print(name, 'DEMO PASSES WITH BUG')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        good = ok0 and not bad and r.returncode != 0
        res = ''
        if good:
            c = subprocess.run(['bash', V + '/check.sh', s['prop']], env=dict(ENV, VC_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed:' in l]
            res = 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode
            res += ' ' + ' | '.join(x[:200] for x in v[:2])
        print(name, 'ok' if good else 'INVALID', res, flush=True)
    finally:
        shutil.rmtree(wk, ignore_errors=True)
