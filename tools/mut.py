#!/usr/bin/env python3
"""mut.py PROPS -r COMMIT | mut.py PROPS FILE OLD NEW [FILE OLD NEW ...] | mut.py PROPS -p PATCH | mut.py -f SPEC [PROPS]:
runs checks against changed copies of the tree (developer tool).  SPEC: python file with M(props, file, old, new, ...) calls"""
import subprocess, sys, re, os, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SL = int(os.environ.get('SLOTS', '4'))

def slot(i):
    d = '/tmp/mutslots/%d' % i
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/repo/'] if False else
                          ['bash', '-c', 'mkdir -p %s/repo && cd /repo && rm -rf %s/repo/src && cp -a src Cargo.toml Cargo.lock %s/repo/ && for x in .cargo build.rs resources benches tests examples; do [ -e $x ] && cp -a $x %s/repo/ ; done; true' % (d, d, d, d)])
    if not os.path.exists(d + '/build'):
        subprocess.check_call(['cp', '-a', VERIF + '/.build', d + '/build'])
    return d

def run(i, props, a, label=''):
    d = slot(i)
    out = []
    if a[0] == '-r':
        x = subprocess.check_output(['git', '-C', '/repo', 'show', a[1]])
        subprocess.run(['patch', '-s', '-R', '-p1', '-d', d + '/repo'], input=x, check=True)
    elif a[0] == '-p':
        subprocess.check_call(['patch', '-s', '-p1', '-d', d + '/repo', '-i', os.path.abspath(a[1])])
    else:
        a = list(a)
        while a:
            f, o, n = a[:3]; a = a[3:]
            p = d + '/repo/' + f
            s = open(p).read()
            if s.count(o) < 1:
                return label + ' PATTERN NOT FOUND in ' + f
            if s.count(o) > 1: out.append('NOTE: %d occurrences' % s.count(o))
            open(p, 'w').write(s.replace(o, n, 1))
    e = dict(os.environ, OSMG_REPO=d + '/repo', OSMG_BUILD=d + '/build', OSMG_EVIDENCE=d + '/evidence')
    props = [q for p in props for q in p.split()]
    every = props == ['ALL']
    line = []
    import json
    r = subprocess.run(['python3', 'tools/allchecks.py'] + (props if not every else []), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    try:
        res = json.loads(r.stdout.splitlines()[-1])
    except Exception:
        return label + ' NO ANSWER ' + r.stdout[-600:]
    for q, (rc, txt) in res.items():
        o = txt.splitlines()
        if every:
            u = re.search(r'(\d+) undecided', txt)
            if rc not in (0, 1) or 'INTERNAL' in txt:
                line.append('\n   NO ANSWER ' + q + txt[-600:])
            elif rc:
                line.append('\n   ALARM ' + q + ' ' + ' | '.join(re.sub(r'osmgraphing::(\w+::)+', '', l)[:200] for l in o if 'VIOLATION' not in l and 'undecided' not in l)[:600])
            elif u and int(u.group(1)) > (8 if q == 'P06' else 0):
                line.append('%s:und%s' % (q, u.group(1)))
            continue
        out.append('== %s %s rc=%d' % (label, q, rc))
        for l in o[:int(os.environ.get('LINES_', '7'))]:
            if 'obligations,' in l and rc == 1: continue
            if l.startswith('VIOLATION'): continue
            out.append('   ' + re.sub(r'osmgraphing::(\w+::)+', '', l)[:240])
    if every:
        out.append('%s %s' % (label, ' '.join(line) or 'quiet'))
    return '\n'.join(out)

if sys.argv[1] == '-f':
    jobs = []
    def M(props, *a):
        jobs.append((props.split(','), a))
    exec(open(sys.argv[2]).read())
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    js = [(k, p, a) for k, (p, a) in enumerate(jobs) if not only or str(k) in only]
    import queue
    free = queue.Queue()
    for i in range(SL): free.put(i)
    def go(j):
        i = free.get()
        try:
            return run(i, j[1], j[2], '#%d' % j[0])
        except Exception as ex:
            return '#%d %r' % (j[0], ex)
        finally:
            free.put(i)
    with ThreadPoolExecutor(SL) as ex:
        for r in ex.map(go, js):
            print(r, flush=True)
else:
    print(run(0, sys.argv[1].split(','), sys.argv[2:]))
