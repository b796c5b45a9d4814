#!/usr/bin/env python3
"""Which simple mutants of /repo that its tests do not notice do the checks notice?
mutate.py OUT.jsonl [-n SAMPLE] [-j JOBS] [-full] [file substring ...]
/repo is not changed (go's -overlay is used)."""
import argparse, json, os, random, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
GO = '/opt/veriftools/go1.26.10/bin/go'
PLAN = [('tag/', 'C03 C02 C21'), ('internal/pointer/', 'C15 C06 C21'), ('internal/route/', 'C14 C13'),
        ('internal/container/merge', 'C10 C11 C12 C18'), ('internal/container/sort', 'C16 C17'),
        ('internal/container/', 'C09 C23 C10 C16 C18'), ('internal/oapi/resolver/', 'C06 C21 C08 C04'),
        ('internal/oapi/scan/types/', 'C01 C02 C04 C05 C08 C07 C21'), ('internal/oapi/scan/cmds/', 'C07 C21'),
        ('internal/oapi/scan/specs/', 'C11 C21'), ('internal/pkgutil/', 'C11 C21 C01'),
        ('internal/oapi/config/', 'C18 C20'), ('internal/oapi/oapi.go', 'C12 C13 C11'),
        ('cmd/', 'C20'), ('temp.go', 'C16'), ('oapi.go', 'C07 C08 C12 C13 C21 C16 C20')]
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('files', nargs='*')
ap.add_argument('-n', type=int, default=0); ap.add_argument('-j', type=int, default=7)
ap.add_argument('-full', action='store_true'); ap.add_argument('-again', help='only the mutants missed in that file')
a = ap.parse_args()
env = dict(os.environ, HOME='/root', PATH=os.path.dirname(GO) + ':' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOSUMDB='off', GOFLAGS='-mod=mod -buildvcs=false', GOCACHE='/tmp/mutcache')
S = tempfile.mkdtemp(prefix='mutate')
shutil.copytree(V + '/harness', S + '/h')
subprocess.check_call(['go', 'build', '-o', S + '/mutator', '.'], cwd=V + '/tools/mutator', env=env)
known = {}
for l in open(V + '/known_findings.txt'):
    if l.startswith('known:'):
        w = dict(x.split('=', 1) for x in l.split()[1:3])
        known.setdefault(w['property'], []).append(w['name'])
jobs = []
for d, _, fs in sorted(os.walk(R)):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), R)
        if not p.endswith('.go') or p.endswith('_test.go') or '/.' in '/' + p or 'oapi/spec/' in p or 'logging' in p:
            continue
        if a.files and not any(x in p for x in a.files):
            continue
        checks = next((c for k, c in PLAN if k in p), None)
        if not checks:
            continue
        o = f'{S}/m/{p}'
        subprocess.check_call([S + '/mutator', f'{R}/{p}', o])
        for l in open(o + '/index'):
            n, line, what = l.rstrip('\n').split('\t', 2)
            jobs.append((p, int(n), int(line), what, checks.split()))
if a.again:
    miss = {(m['file'], m['what'], m['line']) for m in map(json.loads, open(a.again)) if m['result'] == 'MISSED'}
    jobs = [j for j in jobs if (j[0], j[3], j[2]) in miss]
random.seed(1)
random.shuffle(jobs)
if a.n:
    jobs = jobs[:a.n]
out = open(a.out, 'w')

def run(cmd, cwd, e, limit):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        t = p.communicate(timeout=limit)[0]
        return p.returncode, t.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', ''

def one(j):
    p, n, line, what, checks = j
    w = tempfile.mkdtemp(dir=S)
    try:
        ov = w + '/overlay.json'
        json.dump({'Replace': {f'{R}/{p}': f'{S}/m/{p}/{n}.go'}}, open(ov, 'w'))
        for c in checks:
            b = w + '/' + c
            r, t = run([GO, 'test', '-c', '-trimpath', '-vet=off', '-overlay', ov, '-o', b, './' + c.lower()], S + '/h', env, 300)
            if r != 0:
                return 'nobuild'
            e = dict(env, VERIF_KNOWN=' '.join(known.get(c, [])), VERIF_TIER='quick', GOMAXPROCS='2', VERIF_SEED='1', VERIF_SHRINK='1ms')
            e.pop('GOCACHE')
            if os.path.exists(f'{V}/harness/{c.lower()}/USES_CLI'):
                r, t = run([GO, 'build', '-overlay', ov, '-o', w + '/cli', './cmd/oapi'], R, env, 300)
                e['VERIF_CLI'] = w + '/cli'
            for k in range(8 if a.full else 1):
                o = f'{w}/{c}.{k}'
                os.makedirs(o + '/tmp')
                r, t = run([b, '-test.timeout=0', '-test.run=^TestProp$'], o + '/tmp', dict(e, VERIF_OUT=o, TMPDIR=o + '/tmp', VERIF_SHARD=f'{k}/8'), 400)
                if r != 0:
                    return f'{c} {r}'
            os.remove(b)
        r, t = run([GO, 'test', '-vet=off', '-overlay', ov, './...'], R, env, 300)
        return 'MISSED' if r == 0 else 'tests'
    finally:
        shutil.rmtree(w, ignore_errors=True)

def do(j):
    r = one(j)
    out.write(json.dumps({'file': j[0], 'line': j[2], 'what': j[3], 'n': j[1], 'result': r}) + '\n')
    out.flush()
    if r == 'MISSED':
        print(j[0], j[2], j[3], flush=True)

with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(do, jobs))
shutil.rmtree(S)
