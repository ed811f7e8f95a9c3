"""Builds a vendor directory for the nightly toolchain: symlinks into /opt/vp/vendor plus one patched
proc-macro crate (rental-impl prints a token stream that newer compilers format differently)."""
import glob, json, os, shutil, sys

D = sys.argv[1]
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
PATCH = {'rental-impl-0.5.5': [('src/lib.rs', '[")", ").0,", "}"]', '[")", ").0", "}"]')]}
for c in glob.glob('/opt/vp/vendor/*'):
    b = os.path.basename(c)
    if b in PATCH:
        shutil.copytree(c, D + '/' + b)
        q = D + '/' + b + '/.cargo-checksum.json'
        j = json.load(open(q))
        j['files'] = {}
        json.dump(j, open(q, 'w'))
        for f, a, r in PATCH[b]:
            p = D + '/' + b + '/' + f
            s = open(p).read()
            assert a in s
            open(p, 'w').write(s.replace(a, r))
    else:
        os.symlink(c, D + '/' + b)
open(D + '.toml', 'w').write('[source.crates-io]\nreplace-with="v"\n[source.v]\ndirectory="%s"\n' % D)
