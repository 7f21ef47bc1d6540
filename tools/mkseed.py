"""Helper to plant and confirm bugs: applies the edits to /repo, checks that it
builds, passes the stable tests and that the demonstration fails with the change
and passes without it, then undoes everything and keeps the patch."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = '/repo'

DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
P=$PWD/%(pkg)s
echo '{"Replace":{"'$P'/zz_demo_test.go":"'$D'/demo_test.go"}}' > "$T/o.json"
cd "$P" && TMPDIR=$T timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$T/o.json" -run 'TestZZDemo' . > "$T/log" 2>&1
rc=$?
grep -q 'no tests to run' "$T/log" && rc=3
tail -40 "$T/log"
exit $rc
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def clean():
    sh('git -C /repo checkout -q -- .')

def seed(id, prop, needs, breaks, edits, pkg, test, flags=''):
    d = f'{V}/seeded/{id}'
    if sh('git -C /repo status --porcelain').stdout.strip():
        print(id, 'repo not clean'); return False
    try:
        for f, old, new in edits:
            p = f'{R}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(id, f, 'edit matches', s.count(old)); return False
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C /repo diff').stdout
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(id, 'BUILD', r.stderr[-800:]); return False
        sh('bash /opt/vp/test.sh /tmp/o.json')
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/o.json'))
        miss = set(b['stable']) - set(o['passed'])
        if miss:
            print(id, 'TESTS FAIL', len(miss), sorted(miss)[:6]); return False
        sh('git -C /repo checkout -q -- testdata')
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo_test.go', 'w').write(test.lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg, 'flags': flags})
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(f'bash {os.path.abspath(d)}/demo.sh', cwd=R)
        clean()
        c = sh(f'bash {os.path.abspath(d)}/demo.sh', cwd=R)
        sh('git -C /repo checkout -q -- testdata')
        if a.returncode == 0 or a.returncode == 3 or 'build failed' in a.stdout or c.returncode != 0:
            print(id, 'DEMO patched rc', a.returncode, 'clean rc', c.returncode, a.stdout[-1500:], '-----', c.stdout[-600:])
            sh(f'rm -r {os.path.abspath(d)}')
            return False
        print(id, 'ok')
        return True
    finally:
        clean()
