#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id> for every seed(...) of the spec file (developer tool; no check uses it)."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.join(V, 'tools', 'seedlib')


def seed(id, prop, edits, main, needs, breaks, pre='', sh=None, files=None, deps=''):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']).strip(), 'dirty /repo'
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    if sh is None:
        s = open(L + '/demo.sh').read()
        s = s.replace('cd "$REPO" && PRE ', ('%s\ncd "$REPO" && ' % pre) if pre else 'cd "$REPO" && ')
        s = s.replace('[workspace]', deps + '[workspace]')
        open(d + '/demo.sh', 'w').write(s)
        shutil.copy(L + '/prelude.rs', d)
        open(d + '/demo.rs', 'w').write('#![allow(unused)]\nmod prelude;\nuse prelude::*;\nuse osmgraphing::{configs, io, network::{Graph, NodeIdx, EdgeIdx}, routing::{dijkstra, paths::Path}};\n\n' + main.strip() + '\n')
    else:
        open(d + '/demo.sh', 'w').write(sh)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), 'w').write(c)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)


if __name__ == '__main__':
    g = {'seed': seed}
    exec(open(sys.argv[1]).read(), g)
