#!/usr/bin/env python3
# Runs checks against the planted bugs: seeded.py [-p C01,C02] [ids...]   (default: the bug's own property, all bugs)
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args[:1] == ['-p']:
    props = args[1].split(','); args = args[2:]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert sh('git -C /repo status --short').stdout == '', '/repo is not clean'
for b in sorted(os.listdir(V + '/seeded')):
    if args and b not in args: continue
    d = V + '/seeded/' + b
    own = json.load(open(d + '/meta.json'))['property']
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(b, 'DOES NOT APPLY', r.stdout); continue
        for p in props or [own]:
            r = sh('VERIF_SEED=1 python3 %s/check.py %s' % (V, p))
            l = [x for x in r.stdout.splitlines() if x and not x.startswith('VIOLATION')]
            print(b, p, 'rc=%d' % r.returncode, (l[-1] if l else '')[:120], flush=True)
    finally:
        sh('git -C /repo checkout -- .')
