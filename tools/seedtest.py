#!/usr/bin/env python3
"""seedtest.py [-c] [-n] [id...]: validates planted bugs (build, stable tests, demo with and without) and runs their property's check.
-c: only the checks; -n: skip the demo on the unchanged tree; -a: run all checks against each"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open('/opt/vp/BASELINE.json'))
opts = {a for a in sys.argv[1:] if a.startswith('-')}
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))


def sh(c, cwd='/repo', t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def stable():
    for k in ('stable', 'passed', 'tests', 'pass', 'stable_tests'):
        if k in base and isinstance(base[k], list):
            return set(base[k])
    raise SystemExit('baseline keys %s' % list(base))


for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    res = [i, prop]
    if '-c' not in opts and '-n' not in opts:
        rc, o = sh('bash /opt/vp/build.sh')
        rc, o = sh('bash %s/demo.sh' % d)
        res.append('demo-clean=%d%s' % (rc, '' if rc == 0 else ' ' + o[-700:]))
    rc, o = sh('git apply %s/patch.diff' % d)
    if rc:
        print(i, 'DOES NOT APPLY', o)
        continue
    try:
        if '-c' not in opts:
            rc, o = sh('bash /opt/vp/build.sh')
            res.append('build=%d%s' % (rc, '' if rc == 0 else o[-1500:]))
            if rc == 0:
                sh('bash /opt/vp/test.sh /tmp/vpt.json')
                t = json.load(open('/tmp/vpt.json'))
                ps = set(t.get('passed') or t.get('pass') or [])
                miss = stable() - ps
                res.append('tests=%s' % ('ok' if not miss else 'FAIL %s' % sorted(miss)[:3]))
                rc, o = sh('bash %s/demo.sh' % d)
                res.append('demo-bug=%d' % rc)
                if rc == 3:
                    res.append(o[-600:])
        rc, o = sh('python3 check.py %s' % prop, cwd=V)
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        why = [l for l in o.splitlines() if ' at ' in l]
        res.append('CAUGHT' if rc == 1 and v else 'missed rc=%d' % rc)
        res.append((why or [''])[0][:200])
    finally:
        sh('git checkout -q -- .')
    print(' | '.join(res), flush=True)
sh('rm -rf /repo/target/vpdemo')
