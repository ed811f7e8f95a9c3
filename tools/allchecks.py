#!/usr/bin/env python3
"""runs every check of the manifest in forks of one process that has loaded the facts (developer tool); prints json {id: [rc, output]}"""
import io, json, os, sys, contextlib, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from osmg import facts, lib, checks
man = [c['property_id'] if 'property_id' in c else c.get('property', c.get('id')) for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
want = sys.argv[1:] or man
try:
    lib.program()
except facts.BuildFailed as e:
    print(json.dumps({p: [2, 'BUILD ' + str(e)[-300:]] for p in want[:1]}))
    sys.exit(0)
checks.registry()
out = {}
for p in want:
    f = tempfile.TemporaryFile('w+')
    pid = os.fork()
    if pid == 0:
        os.dup2(f.fileno(), 1); os.dup2(f.fileno(), 2)
        try:
            rc = checks.run(p, 'quick')
        except BaseException as e:
            print(repr(e)); rc = 2
        sys.stdout.flush()
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    f.seek(0)
    out[p] = [os.waitstatus_to_exitcode(st), f.read()]
print(json.dumps(out))
