#!/usr/bin/env python3
"""Writes and validates planted bugs: python3 tools/plant.py BUGS.py [ID ...]

BUGS.py defines BUGS, a list of dicts: id, prop, pkg (of the demo), test (Go
source of the body of a test file), edits [(file, old, new)], needs, breaks.
Works in a scratch copy of /repo; nothing here is used by the checks.
"""
import json, os, runpy, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plant-repo'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false',
           PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'])

DEMO = '''#!/bin/bash
# Runs demo_test.go inside of package %(pkg)s of the repository in the
# working directory, nothing is written there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace":{"%%s/%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "%(pkg)s" "$tmp" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' "./%(pkg)s"
'''

def sh(cmd, cwd=SCRATCH, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return set(b)

def tests():
    r = sh('go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/plant.log; python3 /opt/vp/results.py /tmp/plant.json gojson:/tmp/plant.log')
    return stable() - set(json.load(open('/tmp/plant.json'))['passed'])

def main():
    ns = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- . && git clean -fdq')
        d = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo_test.go.txt', 'w').write(b['test'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': b['pkg']})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        bad = []
        r = sh(d + '/demo.sh')
        if r.returncode:
            bad.append('demo fails on clean tree:\n' + r.stdout[-1500:])
        for f, old, new in b['edits']:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                bad.append('%s: %d places' % (f, n)); continue
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=SCRATCH, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # removed lines have to be of the original repository
        r = sh('go build ./...')
        if r.returncode: bad.append('build: ' + r.stdout[-800:])
        else:
            m = tests()
            if m: bad.append('tests: %s' % sorted(m)[:5])
            r = sh(d + '/demo.sh')
            if r.returncode == 0: bad.append('demo passes with the patch')
            elif '--- FAIL' not in r.stdout and 'panic' not in r.stdout: bad.append('demo does not run: ' + r.stdout[-800:])
        blame(b, bad)
        if bad:
            shutil.rmtree(d)
        print(b['id'], b['prop'], 'OK' if not bad else 'BAD\n  ' + '\n  '.join(bad), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)

def blame(b, bad):
    """Which of the changed lines are of the original repository."""
    for f, old, new in b['edits']:
        r = subprocess.run(['git', 'blame', '-s', f], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.split('\n')
        src = subprocess.run(['git', 'show', 'HEAD:' + f], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
        at = src.find(old)
        if at < 0: continue
        first = src[:at].count('\n')
        ours = [l for l in r[first:first + old.rstrip('\n').count('\n') + 1] if not l.startswith(('^1247dc7', '1247dc7'))]
        if ours:
            print('  note: lines of ours in', f, ours)

main()
