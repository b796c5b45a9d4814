#!/usr/bin/env python3
"""Applies planted bugs to /repo one by one and runs checks: catch.py [-a] [ID ...] (-a: all checks)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
args = [a for a in args if a != '-a']
for b in sorted(os.listdir(V + '/seeded')):
    if args and b not in args:
        continue
    prop = json.load(open(f'{V}/seeded/{b}/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', f'{V}/seeded/{b}/patch.diff'])
    try:
        ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')] if every else [prop]
        out = []
        for i in ids:
            r = subprocess.run(['python3', 'check.py', i], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                out.append(i if 'VIOLATION property=' + i in r.stdout else i + '?%d' % r.returncode)
        print(b, prop, 'caught by ' + ' '.join(out) if out else 'MISSED', flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
