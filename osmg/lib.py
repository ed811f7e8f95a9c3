"""Check framework: obligations, verdicts, evidence, known findings; pattern matching on terms."""
import json, os, re, sys, time, traceback
from . import facts
from .terms import *
from .terms import _atom
from .engine import *
from .engine import strip_generics, strip_ref
from . import models

VERIF = facts.VERIF
G = 'osmgraphing::network::graph::'
_prog = None
CURRENT = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(facts.load())
    return _prog


# ------------------------------------------------------------------ patterns
def V(n):
    return mk('pvar', n)


ANY = mk('pvar', '_')


def match(p, t, env=None):
    """structural match of a pattern (with variables) against a term; returns the environment or None"""
    env = {} if env is None else env
    if isinstance(p, T):
        if p.op == 'pvar':
            if p.a[0] == '_':
                return env
            if p.a[0] in env:
                return env if env[p.a[0]] is t else None
            e = dict(env)
            e[p.a[0]] = t
            return e
        if p is t:
            return env
        if not isinstance(t, T) or p.op != t.op or len(p.a) != len(t.a):
            return None
        if p.op == 'lin' and isinstance(t, T):
            # c + sum: match coefficient-wise (single-term sums only)
            if p.a[0] != t.a[0] or len(p.a[1]) != len(t.a[1]):
                return None
            return _perm(list(p.a[1]), list(t.a[1]), env)
        if (p.op == 'bin' and p.a[0] in ('Add', 'Mul') and t.a[0] == p.a[0]) or p.op in ('eq', 'feq'):
            k = 1 if p.op == 'bin' else 0
            for x, y in ((t.a[k], t.a[k + 1]), (t.a[k + 1], t.a[k])):
                e = match(p.a[k], x, env)
                if e is not None:
                    e = match(p.a[k + 1], y, e)
                    if e is not None:
                        return e
            return None
        for x, y in zip(p.a, t.a):
            env = match(x, y, env)
            if env is None:
                return None
        return env
    if isinstance(p, tuple):
        if not isinstance(t, tuple) or len(p) != len(t):
            return None
        for x, y in zip(p, t):
            env = match(x, y, env)
            if env is None:
                return None
        return env
    return env if p == t else None


def _perm(ps, ts, env):
    if not ps:
        return env
    p0, k0 = ps[0]
    for i, (t, k) in enumerate(ts):
        if k == k0:
            e = match(p0, t, env)
            if e is not None:
                e = _perm(ps[1:], ts[:i] + ts[i + 1:], e)
                if e is not None:
                    return e
    return None


def fld(b, owner, name):
    return mk('fld', b, owner, name)


def idx(b, i):
    return mk('idx', b, i)


def sm(t):
    return mk('vfld', t, 'Some', '0')


def okp(t):
    return mk('vfld', t, 'Ok', '0')


OPQ = {'phi', 'merge', 'mut', 'rv', 'pcwide', 'updopaque', 'resid', 'popped', 'undef', 'named', 'proj', 'extended', 'store', 'swapped', 'subrange', 'mutcall', 'fmtopaque', 'branch', 'nth', 'const', 'default'}


def known(t, extra=()):
    """a term made only of interpreted operations: its meaning is fully determined"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in OPQ and x.op not in extra:
            return False
        if x.op == 'call' and x.a[3] is not None:
            return False
        if x.op == 'call' and (x.a[0].startswith('osmgraphing') or x.a[0].startswith('<osmgraphing') or x.a[0] in ('indirect', 'closure')):
            return False
        if x.op == 'rng':  # a loop position stands for itself
            continue
        st.extend(x.a)
    return True


def known_but(t, ends, extra=()):
    """known, if the results of the functions with these names are taken as they are"""
    m = {x: mk('sym', 'result', x.id) for x in subterms(t) if x.op == 'call' and x.a[0].endswith(tuple(ends))}
    return known(rewrite(t, lambda x: m.get(x, x)) if isinstance(t, T) and m else t, extra)


def atoms_of(c):
    """decision variables of a condition"""
    out, seen, st = [], set(), [c]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            out.append(x.a[0])
            st += [x.a[1], x.a[2]]
        elif x.op != 'c':
            out.append(x)
    r = []
    for a in out:
        if a not in r:
            r.append(a)
    return r


# ------------------------------------------------------------------ the check object
class Check:
    def __init__(self, pid, tier, rule, level='other'):
        self.pid, self.tier, self.rule, self.level = pid, tier, rule, level
        self.t0 = time.time()
        self.P = program()
        self.obl = []  # (key, status, where, detail)
        self.fns = set()
        self.sites = 0
        self.paths = 0
        self.notes = set()
        self.cache = {}
        global CURRENT
        CURRENT = self

    # obligations
    def ok(self, key, where='', detail=''):
        self.obl.append((key, 'ok', where, detail))

    def viol(self, key, where, detail):
        self.obl.append((key, 'violation', where, detail))

    def keys(self, prefix):
        return [o[0] for o in self.obl if o[0].startswith(prefix)]

    def undec(self, key, where='', detail=''):
        self.obl.append((key, 'undecided', where, detail))

    def decide(self, key, good, where='', detail='', decidable=True):
        if good:
            self.ok(key, where, detail)
        elif decidable:
            self.viol(key, where, detail)
        else:
            self.undec(key, where, detail)
        return good

    def fn(self, path, crate=None, required=True):
        """an anchored function; if it was moved, the only function of the same name (and kind) is taken"""
        f = self.P.find(path, crate)
        if f is None:
            last = path.split('::')[-1]
            owner = path.split('::')[-2].split(' ')[0].strip('<>') if '::' in path else ''
            c = [g for g in self.P.fns.values() if g['path'].split('::')[-1] == last and not is_testfn(g)]
            c2 = [g for g in c if owner and owner in g['path']] or c
            if len(c2) == 1:
                f = c2[0]
        if f is None and required:
            self.undec('anchor:' + path, path, 'the anchored function does not exist any more')
        return f

    def run(self, path, crate=None, key=None, **kw):
        k = (path if isinstance(path, str) else path['id'] if 'id' in path else path['path'], crate, key)
        if key is not None or not kw:
            if k in self.cache:
                return self.cache[k]
        f = self.fn(path, crate) if isinstance(path, str) else path
        if f is None:
            return None
        no = kw.pop('no_inline', ())
        steps = kw.pop('max_steps', 60000)
        E = Engine(self.P, no_inline=no, max_steps=steps)
        try:
            E.run(f, **kw)
        except Budget:
            self.undec('budget:' + f['path'])
            return None
        self.fns |= E.inlined
        self.sites += len(E.eff)
        self.paths += E.steps
        self.notes |= E.notes
        if key is not None or not kw:
            self.cache[k] = E
        return E

    def has_field(self, adt, *names):
        a = self.P.adts.get(adt)
        if not a:
            return False
        have = {f[0] for v in a['variants'] for f in v['fields']}
        return all(n in have for n in names)

    def known_adt_fields(self, t):
        """do all fields named in an expected pattern still exist?"""
        for x in subterms(t):
            if x.op == 'fld' and isinstance(x.a[1], str) and x.a[1].startswith('osmgraphing'):
                if not self.has_field(x.a[1], x.a[2]):
                    return False
        return True

    def compare(self, key, got, want, where, env=None, what=''):
        """obligation: the value `got` is `want` (pattern).  Only a fully understood, different value is a violation"""
        e = match(want, got, env or {})
        if e is not None:
            self.ok(key, where, what)
            return e
        if known(got) and self.known_adt_fields(want):
            self.viol(key, where, '%s: expected %s, found %s' % (what or key, show(want, 9), show(got, 9)))
        else:
            self.undec(key, where, '%s: not understood: %s' % (what or key, show(got, 7)))
        return None

    # ---------------------------------------------------------------- reporting
    def finish(self, min_ok=1):
        known_f = load_known(self.pid)
        viols, knowns = [], []
        seen = set()
        for key, s, where, detail in self.obl:
            if s == 'violation':
                if key in seen:
                    continue
                seen.add(key)
                (knowns if key in known_f else viols).append((key, where, detail))
        okn = sum(1 for o in self.obl if o[1] == 'ok')
        und = [o for o in self.obl if o[1] == 'undecided']
        if okn == 0 and not viols:
            viols.append(('floor', '', 'no obligation could be established; the rule has lost its subject'))
        EVD = os.environ.get('OSMG_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(EVD, exist_ok=True)
        replay = os.path.join(EVD, '%s.violations.txt' % self.pid)
        keys = sorted({o[0] for o in self.obl})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
            'coverage': {
                'explanation': 'static value-flow analysis of the MIR of /repo\'s current tree; rule: ' + self.rule,
                'rule': self.rule,
                'obligations': len(self.obl), 'obligations_expected_at_least': min_ok, 'discharged': okn, 'undecided': len(und), 'known_findings': len(knowns),
                'distinct_obligation_keys': len(keys),
                'functions_analysed': len(self.fns), 'effect_sites_analysed': self.sites, 'basic_blocks_interpreted': self.paths,
                'samples': [{'obligation': k, 'status': s, 'where': w, 'detail': d[:300]} for k, s, w, d in self.obl[:6]] +
                           [{'obligation': k, 'status': s, 'where': w, 'detail': d[:300]} for k, s, w, d in und[:4]],
                'checker_cmd': 'python3 check.py %s' % self.pid,
                'trusted_base': ['rustc nightly MIR construction', 'driver/driver.rs', 'osmg/engine.py', 'osmg/models.py (models of std/smallvec/log)'],
            },
            'assumptions': ['library functions behave as modelled', 'code generated for the nightly toolchain has the meaning of the stable build', 'logging and progress output have no effect on results'],
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(viols),
        }
        json.dump(ev, open(os.path.join(EVD, self.pid + '.json'), 'w'), indent=1)
        for key, where, detail in knowns:
            print('KNOWN-FINDING: property=%s %s (%s) %s' % (self.pid, key, where, known_f[key]))
        print('%s: %d obligations, %d discharged, %d undecided, %d functions, %d effect sites, %.1fs' % (self.pid, len(self.obl), okn, len(und), len(self.fns), self.sites, time.time() - self.t0))
        if os.environ.get('OSMG_VERBOSE'):
            for o in self.obl:
                if o[1] == 'ok' and os.environ.get('OSMG_VERBOSE') != '2':
                    continue
                print('   ', o[1], o[0], o[2], o[3][:400])
        elif und:
            for o in und[:10]:
                print('   undecided', o[0], o[2], o[3][:200])
        if viols:
            with open(replay, 'w') as f:
                for key, where, detail in viols:
                    f.write('%s\n  at   %s\n  why  %s\n  rule %s\n' % (key, where, detail, self.rule))
            for key, where, detail in viols[:20]:
                print('  %s at %s: %s' % (key, where, detail[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        return 0


def load_known(pid):
    """known-findings.txt: `known: property=<id> key=<key> :: <what fails>`"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.+?) :: (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


# ------------------------------------------------------------------ helpers shared by the rules
def all_calls():
    """(fn, block, callee path, terminator) for every call in the analysed crates (cleanup blocks excluded)"""
    for f in program().fns.values():
        for i, b in enumerate(f['blocks']):
            t = b['t']
            if b.get('cleanup') or t['t'] != 'call':
                continue
            fn = t['f'].get('fn') if isinstance(t['f'], dict) else None
            if fn:
                yield f, i, fn['path'], t


def is_testfn(f):
    return '::tests::' in f['path'] or f['path'].endswith('::tests')


def variant_of(x):
    """'Ok'/'Err'/'Some'/'None'/... of a leaf, None if unknown"""
    if x.op == 'agg' and x.a[0] == 'adt':
        return x.a[2]
    if x.op == 'with':
        return variant_of(x.a[0])
    return None


def subjects(terms, adt):
    """all x tested by `x is <variant of adt>` in the conditions"""
    out, seen = [], set()
    for t in terms:
        for a in subterms(t):
            if a.op == 'is' and a.a[1] == adt and a.a[0] not in out:
                out.append(a.a[0])
    return out


def free_subjects(terms, adt):
    """subjects outside of searches and counts (whose own variables are bound)"""
    out, seen, st = [], set(), list(terms)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not hasattr(x, 'op') or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'is' and x.a[1] == adt and x.a[0] not in out:
            out.append(x.a[0])
        if x.op in ('any', 'first', 'countif', 'sum', 'nth', 'last', 'filt'):
            continue
        st.extend(x.a)
    return out


def ret_under(E, care):
    """leaves of the analysed function's return value under a condition"""
    if E.final is not None:
        care = AND(care, E.final.pc)
    if care is FALSE:
        return []
    return [(c, x) for c, x in leaves(E.ret, care) if c is not FALSE]


def ret_can(E, care, variant):
    """may the function return `variant` under `care`?  'no', 'yes' (definitely reachable leaf) or 'maybe'"""
    r = 'no'
    for c, x in ret_under(E, care):
        v = variant_of(x)
        if v == variant:
            return 'yes'
        if v is None and x is not UNDEF:
            r = 'maybe'
    return r


def occurs(E, t):
    """does the term t take part in the function's result, a loop-carried value or a final memory value?"""
    if contains(E.ret, lambda x: x is t):
        return True
    for p, (i, n) in E.phi_ops.items():
        for q in (i, n):
            if q is not None and contains(q, lambda x: x is t):
                return True
    return False


def swallowed(C, E, effs, what, okname='Ok'):
    """error-propagation rule: when a fallible operation fails, the analysed function must not report success.
    effs: effects whose .val is the operation's Result"""
    wide = any('widened' in n for n in E.notes)
    for e in effs:
        key = '%s:%s@%s' % (what, e.name.split('::')[-1], e.fn)
        ok = E.is_(e.val, RESULT, 'Ok')
        care = AND(e.pc, NOT(ok))
        if care is FALSE:
            C.ok(key, e.loc(), 'failure impossible')
            continue
        lv = ret_under(E, care)
        vs = {'Err' if x is e.val else variant_of(x) for c, x in lv if x is not UNDEF}
        panics = any(p.kind in ('panic', 'exit') and AND(p.pc, care) is not FALSE for p in E.eff)
        on = AND(E.back_pc[e.loops[-1]], care) if e.loops and e.loops[-1] in E.back_pc else FALSE
        carried = any(q is not None and contains(q, lambda x: x is e.val) for p, (i, n) in E.phi_ops.items() for q in (i, n))
        if on is not FALSE and not carried and not wide:
            C.viol(key, e.loc(), 'the loop goes on to its next round although this operation failed, and the failure is forgotten')
        elif vs and vs <= {'Err', None} and 'Err' in vs:
            C.ok(key, e.loc(), 'a failure of this operation makes the function return Err')
        elif wide and vs != {okname}:
            C.undec(key, e.loc(), 'approximated')
        elif okname in vs and not occurs(E, e.val):
            C.viol(key, e.loc(), 'the outcome of this fallible operation is ignored: the function can report success although it failed')
        elif not vs and panics:
            C.ok(key, e.loc(), 'a failure aborts the run')
        elif not vs and not occurs(E, e.val):
            C.viol(key, e.loc(), 'the outcome of this fallible operation is ignored: it never influences the result of the function')
        elif vs == {okname}:
            C.viol(key, e.loc(), 'the function returns success on the path where this operation failed')
        elif okname in vs and e.loops == () and all(x.op != 'phi' for x in atoms_of(care)):
            C.viol(key, e.loc(), 'the function can return success on a path where this operation failed')
        else:
            C.undec(key, e.loc(), 'leaves %s' % vs)


def goes_on(C, E, effs, what):
    """the loops around the effects end with their last element, or with an error: no element ends them early"""
    done = set()
    for e in effs:
        for lk in e.loops or ():
            if lk in done:
                continue
            done.add(lk)
            for pc in E.exits.get(lk, ()):
                js = [a.a[0] for a in atoms_of(pc) if a.op == 'more' and a.a[0].op == 'rng' and loopkey(a.a[0]) == lk and AND(pc, NOT(_atom(a))) is FALSE]
                if len(js) != 1:
                    continue
                j = js[0]
                vs = {variant_of(x) or ('Err' if AND(pc, c, E.is_(x, RESULT, 'Ok')) is FALSE else None) for c, x in ret_under(E, pc) if x is not UNDEF}
                if vs == {'Err'} or not vs:
                    C.ok(what, e.fn, 'an element that ends the loop makes the function fail')
                    continue
                own = [a for a in atoms_of(restrict(pc, mk('more', j))) if contains(a, lambda x: x is j)]
                loose = any(contains(a, lambda x: x.op == 'phi' and loopkey(x) == lk) for a in own)
                C.decide(what, False, e.fn, 'every element is handled, but one of them ends the loop early (if %s)' % show(AND(*own[-2:]) if own else pc, 5), decidable=bool(own) and not loose and None not in vs)


# ------------------------------------------------------------------ written text
def texts(v, pc=TRUE, cap=400):
    """[(condition, parts)] of a formatted value; parts: ('lit', s) | ('val', kind, term, spec).  Conditionals inside
    arguments are split."""
    out = []

    def go(v, c, k):
        if len(out) > cap:
            return
        if v.op == 'ite':
            for cc, x in leaves(v, c):
                go(x, cc, k)
        elif v.op == 'c' and v.a[0] in ('str', 'char'):
            k(c, [('lit', str(v.a[1]))])
        elif v.op == 'fmt':
            ps = list(v.a[0])

            def step(i, c, acc):
                if i == len(ps):
                    k(c, acc)
                    return
                p = ps[i]
                if p[0] == 'lit':
                    step(i + 1, c, acc + [p])
                elif p[1] == 'display' and not p[3] and (p[2].op in ('ite', 'fmt') or (p[2].op == 'c' and p[2].a[0] in ('str', 'char'))):
                    go(p[2], c, lambda c2, a2: step(i + 1, c2, acc + a2))
                else:
                    for cc, x in leaves(p[2], c):
                        if p[1] == 'display' and not p[3] and x.op == 'c' and x.a[0] in ('str', 'int', 'char'):
                            step(i + 1, cc, acc + [('lit', str(x.a[1]))])
                        else:
                            step(i + 1, cc, acc + [('val', p[1], x, p[3])])
            step(0, c, [])
        elif v.op == 'bytes':
            k(c, [('val', 'bytes', v, 0)])
        else:
            k(c, [('val', 'str', v, 0)])

    def fin(c, parts):
        r = []
        for p in parts:
            if p[0] == 'lit' and r and r[-1][0] == 'lit':
                r[-1] = ('lit', r[-1][1] + p[1])
            elif p[0] == 'lit' and p[1] == '':
                continue
            else:
                r.append(p)
        out.append((c, r))
    go(restrict(v, pc) if pc is not TRUE else v, pc, fin)
    return [(c, p) for c, p in out if c is not FALSE]


def body_parts(parts):
    """the parts without surrounding white space"""
    r = []
    for p in parts:
        if p[0] == 'lit':
            s = p[1].strip()
            if s:
                r.append(('lit', s))
        else:
            r.append(p)
    return r


def show_parts(ps):
    return ''.join(p[1] if p[0] == 'lit' else '{%s%s}' % (show(p[2], 8), '' if p[1] in ('display', 'str') and not p[3] else ':' + p[1]) for p in ps)


def ok_assumption(E, pred=lambda e: True):
    """condition: every fallible external operation of the run succeeds"""
    c = TRUE
    for e in E.eff:
        if e.val is not None and e.kind in ('call', 'write', 'flush') and (e.kind != 'call' or (e.ret or '').startswith('core::result::Result')) and pred(e):
            c = AND(c, E.is_(e.val, RESULT, 'Ok'))
    return c


def eval_lin(c, env):
    """decide the integer comparisons of a condition that only mention the given terms; other tests stay"""
    memo = {}

    def val(t):
        if t in env:
            return env[t]
        n = cint(t)
        if n is not None:
            return n
        if t.op == 'lin':
            s = t.a[0]
            for x, k in t.a[1]:
                v = val(x)
                if v is None:
                    return None
                s += k * v
            return s
        return None

    def atom(a):
        if a.op == 'neg':
            v = val(a.a[0])
            return None if v is None else v < 0
        if a.op == 'zero':
            v = val(a.a[0])
            return None if v is None else v == 0
        if a.op == 'eq':
            v, w = val(a.a[0]), val(a.a[1])
            return None if v is None or w is None else v == w
        if a.op == 'more' and a.a[0] in env and cint(a.a[0]) is None:
            n = val(a.a[0].a[2]) if a.a[0].op == 'rng' else None
            return None if n is None else env[a.a[0]] < n
        return None

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == 'ite':
            v = atom(x.a[0])
            r = ITE(x.a[0], go(x.a[1]), go(x.a[2])) if v is None else go(x.a[1] if v else x.a[2])
        elif x.op == 'c':
            r = x
        else:
            v = atom(x)
            r = x if v is None else (TRUE if v else FALSE)
        memo[x.id] = r
        return r
    return go(c)


def implies_more(pc, r):
    return implies(pc, _atom(mk('more', r)))


def separators(C, key, writes, col, root):
    """columns of a row are separated by exactly one space: a space is written iff another column follows"""
    n = col.a[2]
    sep = [e for e in writes if e.vals[1].op == 'c' and e.vals[1].a[0] == 'str' and e.vals[1].a[1] != '' and e.vals[1].a[1].strip() == '' and '\n' not in e.vals[1].a[1] and implies_more(e.pc, col)]
    if not sep:
        C.undec(key, root, 'no separate separator')
        return
    for e in sep:
        C.decide(key + ':single', e.vals[1].a[1] == ' ', e.loc(), 'separator %r' % e.vals[1].a[1])
        table = {}
        und = False
        for nn in (1, 2, 3, 4):
            for i in range(nn):
                f = eval_lin(e.pc, {col: i, n: nn})
                for a in atoms_of(f):
                    if a.op in ('neg', 'zero') and contains(a, lambda t: t is col):
                        und = True
                    if a.op == 'phi':
                        und = True
                table[(i, nn)] = f is not FALSE
        after = all(v == (i < m - 1) for (i, m), v in table.items())
        before = all(v == (i > 0) for (i, m), v in table.items())
        C.decide(key, after or before, e.loc(), 'a separator is written between two columns and nowhere else', decidable=not und)


# ------------------------------------------------------------------ loops: counters, growing sequences, iterators
def loopkey(t):
    return (t.a[0], t.a[1])


def counters(E):
    """{phi: linear value in the position of its own loop}: counters with a constant step per iteration"""
    m = getattr(E, '_counters', None)
    if m is not None:
        return m
    m = E._counters = {}
    rngs = {}
    terms = list(E.back_pc.values()) + [n for i, n in E.phi_ops.values() if n is not None]
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == 'rng' and x.a[3] == '':
                rngs.setdefault((x.a[0], x.a[1]), x)
    for p, (i, n) in E.phi_ops.items():
        if n is None or cint(i) is None:
            continue
        k = cint(isub(n, p))
        r = rngs.get(loopkey(p))
        if k and r is not None:
            m[p] = iadd(i, imul(I(k), r))
    return m


def within(pc):
    """pc, knowing that the position an offsets-array of the graph gives for a non-empty range lies within the array it points into"""
    for a in atoms_of(pc):
        if a.op != 'neg' or a.a[0].op != 'lin' or len(a.a[0].a[1]) != 2:
            continue
        m = dict(a.a[0].a[1])
        n = [t for t in m if t.op == 'len' and t.a[0].op == 'fld']
        o = [t for t in m if t.op == 'idx' and t.a[0].op == 'fld' and str(t.a[0].a[2]).endswith('offsets')]
        if len(n) != 1 or len(o) != 1:
            continue
        out = None
        if (m[n[0]], m[o[0]], a.a[0].a[0]) == (1, -1, -1):
            out = _atom(a)
        elif (m[n[0]], m[o[0]], a.a[0].a[0]) == (-1, 1, 0):
            out = NOT(_atom(a))
        if out is not None:
            o = o[0]
            pc = AND(pc, OR(NOT(out), izero(isub(idx(o.a[0], iadd(o.a[1], I(1))), o))))
    return pc


def counted(E, t):
    """replaces loop counters by their value in terms of the loop position"""
    m = counters(E)
    return rewrite(t, lambda x: m.get(x, x)) if m else t


def flags(E, t):
    """replaces a flag set in a loop by "some iteration sets it" (any)"""
    m = getattr(E, '_flags', None)
    if m is None:
        m = E._flags = {}
        for p, (i, n) in E.phi_ops.items():
            if n is None or i not in (TRUE, FALSE):
                continue
            r = {x for x in subterms(n) if x.op == 'rng' and loopkey(x) == loopkey(p) and x.a[3] == ''}
            if len(r) != 1:
                continue
            r = r.pop()
            n = cond(n)
            set0, set1 = restrict_value(n, p, FALSE), restrict_value(n, p, TRUE)
            if i is FALSE and set1 is TRUE and not contains(set0, lambda x: x.op == 'phi'):
                m[p] = _atom(mk('any', r, set0))
            elif i is TRUE and set0 is FALSE and not contains(set1, lambda x: x.op == 'phi'):
                m[p] = NOT(_atom(mk('any', r, NOT(set1))))
    return rebuild(E, t, pre=m) if m else t


def picked(E, t, pc=None):
    """what holds for the elements found by a search ("first element with"): the condition at the position found"""
    out = TRUE
    seen = set()
    for x in [t] + ([pc] if pc is not None else []):
        for y in subterms(x, seen):
            if y.op == 'first' and len(y.a) >= 2 and y.a[0].op == 'rng':
                out = AND(out, cond(rebuild(E, y.a[1], pre={y.a[0]: y})))
    return out


def restrict_value(t, a, v):
    return restrict(t, _atom(a) if v is TRUE else NOT(_atom(a)))


def grown(E, p, pc=TRUE, depth=0):
    """how a sequence grows: (initial value, [(loop keys, condition, [pushed values])]) of a phi that is only pushed to"""
    if p.op != 'phi' or p not in E.phi_ops or depth > 4:
        return None
    i, n = E.phi_ops[p]
    if n is None:
        return None
    out = []

    def upto(v, base, c):
        """pushes from base to v"""
        vals = []
        while v is not base:
            if v.op == 'push':
                vals.append(v.a[1])
                v = v.a[0]
            elif v.op == 'phi' and v is not base:
                g = grown(E, v, TRUE, depth + 1)
                if g is None:
                    return False
                for ks, cc, vv in g[1]:
                    out.append(((loopkey(p),) + ks, cc, vv))
                v = g[0]
            else:
                return False
        if vals:
            out.append(((loopkey(p),), c, vals[::-1]))
        return True
    bp = E.back_pc.get(loopkey(p), TRUE)
    for c, v in leaves(n, AND(pc, bp)):
        if not upto(v, p, c):
            return None
    return i, out


def is_empty(v):
    return v.op == 'agg' and v.a[0] == 'array' and v.a[4] == ()


def elem_of(E, f, it):
    """(number, condition, element at position j, j) of an iterator value returned by an analysed function"""
    fr = type('Fr', (), {})()
    from .engine import Frame
    fr = Frame()
    fr.fn, fr.ctx, fr.tmap, fr.depth, fr.bb, fr.keys = f, 0, {}, 0, 0, ()
    j = mk('rng', 0, 999999, models.count_of(E, E.final, it), '')
    r = models.elem_at(E, fr, E.final, it, j)
    if r is None:
        return None
    return models.count_of(E, E.final, it), r[0], E.norm(E.final, r[1]), j


def undrop(v, names=('Meters',)):
    """newtype wrappers are transparent"""
    while v.op == 'agg' and v.a[0] == 'adt' and len(v.a[4]) == 1:
        v = v.a[4][0]
    return v


def alts(v, pc=TRUE):
    return [x for c, x in leaves(v, pc) if c is not FALSE and x is not UNDEF]


def settle(E, t):
    """replaces loop-carried values that no iteration changes by their initial value"""
    m = getattr(E, '_settled', None)
    if m is None:
        m = E._settled = {p: i for p, (i, n) in E.phi_ops.items() if n is p and i is not None}
    for _ in range(8):
        u = rewrite(t, lambda x: m.get(x, x))
        if u is t:
            break
        t = u
    return t


def factored(c, *ts):
    """the condition with the given atoms assumed to hold"""
    for t in ts:
        c = AND(c, t)
    return c


def leafset(v):
    """all values a conditional value may have, without conditions"""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
        elif x is not UNDEF:
            out.append(x)
    return out


def parts(t):
    """subterms, loop positions being leaves"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op != 'rng':
            st.extend(x.a)
    return out


def rebuild(E, t, f=lambda x: x, pre=None):
    """bottom-up rewrite through the engine's constructors: selections of stored, built or conditional values are resolved"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is None and pre is not None:
            r = pre.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            r = ITE(cond(go(x.a[0])), go(x.a[1]), go(x.a[2]))
        elif x.op == 'lin':
            r = I(x.a[0])
            for y, k in x.a[1]:
                r = iadd(r, imul(I(k), go(y)))
        elif x.op == 'idx':
            r = f(E.index(go(x.a[0]), go(x.a[1])))
        elif x.op == 'len':
            r = f(E.length(go(x.a[0])))
        elif x.op == 'store':
            b, i, v = go(x.a[0]), go(x.a[1]), go(x.a[2])
            if b.op == 'store' and b.a[1] is i:
                b = b.a[0]
            if v.op == 'idx' and v.a[0] is b and v.a[1] is i:
                r = b
            else:
                r = f(mk('store', b, i, v))
        elif x.op == 'fld':
            r = f(E.proj(go(x.a[0]), ('f', x.a[2], x.a[1])))
        elif x.op == 'vfld':
            b = go(x.a[0])
            r = f(mk('vfld', b, *x.a[1:])) if b.op != 'agg' else f(E.proj(b, ('vf', x.a[1], x.a[2], b.a[1])))
        elif x.op == 'is':
            r = f(x)
            if r is x:
                b = go(x.a[0])
                r = cond(E.is_(b, x.a[1], x.a[2])) if b is not x.a[0] else x
                r = f(r) if r.op != 'c' else r
        elif x.op == 'c':
            r = f(x)
        elif x.op in ('zero', 'neg') and f(x) is x:
            r = (izero if x.op == 'zero' else ineg)(go(x.a[0]))
        elif x.op == 'bin' and x.a[0] in ('Mul', 'Div', 'Rem') and f(x) is x:
            u, v = go(x.a[1]), go(x.a[2])
            p, q = cint(u), cint(v)
            if x.a[0] == 'Mul' and (p is not None or q is not None):
                r = imul(u, v)
            elif p is not None and q:
                r = I(p // q if x.a[0] == 'Div' else p % q) if p >= 0 and q > 0 else mk('bin', x.a[0], u, v)
            else:
                r = f(mk('bin', x.a[0], u, v))
        elif x.op == 'eq' and f(x) is x:
            r = cond(E.eqvals(None, go(x.a[0]), go(x.a[1])))
        else:
            r = f(mk(x.op, *[go(y) for y in x.a]))
        memo[x.id] = r
        return r
    return go(t)
