"""Hash-consed value terms with decision diagrams for conditional values.

A value is a term `T(op, args)`.  Conditional values are ordered, reduced decision diagrams
`ite(atom, hi, lo)`; boolean conditions are the same diagrams with TRUE/FALSE leaves, hence equal
conditions are equal objects whatever control flow produced them.
"""
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self, 6)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


def reset():
    """forget memo tables (terms stay valid)"""
    _ite_memo.clear()
    _res_memo.clear()


# ------------------------------------------------------------------ constants
def C(kind, v):
    return mk('c', kind, v)


def I(n):
    return mk('c', 'int', n)


def F(x):
    return mk('c', 'float', repr(float(x)))


def S(s):
    return mk('c', 'str', s)


TRUE = mk('c', 'bool', True)
FALSE = mk('c', 'bool', False)
UNIT = mk('agg', 'tuple', '', '', (), ())
UNDEF = mk('undef')


def B(b):
    return TRUE if b else FALSE


def isc(t):
    return t.op == 'c'


def cint(t):
    return t.a[1] if t.op == 'c' and t.a[0] == 'int' else None


def cfloat(t):
    return float(t.a[1]) if t.op == 'c' and t.a[0] == 'float' else None


# ------------------------------------------------------------------ decision diagrams
_atoms = set()
_ite_memo = {}
_res_memo = {}


def _atom(t):
    _atoms.add(t.id)
    return t


def _top(t):
    if t.op == 'ite':
        return t.a[0]
    if t.id in _atoms:
        return t
    return None


def _cof(t, v, hi):
    if t.op == 'ite' and t.a[0] is v:
        return t.a[1] if hi else t.a[2]
    if t is v:
        return TRUE if hi else FALSE
    return t


def _mkite(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    return mk('ite', v, hi, lo)


def cond(t):
    """a boolean value as a condition (its non-constant leaves become decision variables)"""
    if t.op == 'c':
        return t
    if t.op == 'ite':
        hi, lo = t.a[1], t.a[2]
        return ITE(t.a[0], cond(hi), cond(lo))
    if t is UNDEF:
        return FALSE
    return _atom(t)


def ITE(c, g, h):
    if c is TRUE:
        return g
    if c is FALSE:
        return h
    if g is h:
        return g
    if c.op != 'ite':
        _atom(c)
    k = (c.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    vs = [_top(c)]
    for x in (g, h):
        y = _top(x)
        if y is not None:
            vs.append(y)
    v = min(vs, key=lambda x: x.id)
    r = _mkite(v, ITE(_cof(c, v, True), _cof(g, v, True), _cof(h, v, True)),
               ITE(_cof(c, v, False), _cof(g, v, False), _cof(h, v, False)))
    _ite_memo[k] = r
    return r


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ITE(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ITE(r, TRUE, c)
    return r


def NOT(c):
    return ITE(c, FALSE, TRUE)


def implies(a, b):
    return AND(a, NOT(b)) is FALSE


def restrict(f, care):
    """simplify f where `care` holds"""
    if care is TRUE or care is FALSE:
        return f
    v1 = _top(f)
    if v1 is None:
        return f
    k = (f.id, care.id)
    r = _res_memo.get(k)
    if r is not None:
        return r
    v2 = _top(care) if care.op == 'ite' else _atom(care)
    v = v1 if v1.id <= v2.id else v2
    ch, cl = _cof(care, v, True), _cof(care, v, False)
    if ch is FALSE:
        r = restrict(_cof(f, v, False), cl)
    elif cl is FALSE:
        r = restrict(_cof(f, v, True), ch)
    elif v1 is not v:
        r = restrict(f, OR(ch, cl))
    else:
        r = _mkite(v, restrict(_cof(f, v, True), ch), restrict(_cof(f, v, False), cl))
    _res_memo[k] = r
    return r


def lift(f, t):
    """apply f to the leaves of a conditional value"""
    if t.op != 'ite':
        return f(t)
    memo = {}

    def go(x):
        if x.op != 'ite':
            return f(x)
        r = memo.get(x.id)
        if r is None:
            r = ITE(x.a[0], go(x.a[1]), go(x.a[2]))
            memo[x.id] = r
        return r

    return go(t)


def leaves(t, pc=TRUE):
    """[(condition, leaf)] of a conditional value"""
    out = {}

    def go(x, c):
        if c is FALSE:
            return
        if x.op == 'ite':
            go(x.a[1], AND(c, x.a[0]))
            go(x.a[2], AND(c, NOT(x.a[0])))
        else:
            out[x] = OR(out[x], c) if x in out else c

    go(t, pc)
    return [(c, v) for v, c in out.items()]


def nleaves(t, cap=64):
    seen = set()
    st = [t]
    n = 0
    while st and n < cap:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
        else:
            n += 1
    return n


def dsize(t, cap=2000):
    seen = set()
    st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.a[1], x.a[2]]
    return len(seen)


# ------------------------------------------------------------------ integer arithmetic (linear normal form)
def _lin(t):
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    n = cint(t)
    if n is not None:
        return n, {}
    return 0, {t: 1}


def mklin(c, m):
    m = {t: k for t, k in m.items() if k}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (t, k), = m.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(m.items(), key=lambda x: x[0].id)))


def iadd(a, b, s=1):
    c1, m1 = _lin(a)
    c2, m2 = _lin(b)
    for t, k in m2.items():
        m1[t] = m1.get(t, 0) + s * k
    return mklin(c1 + s * c2, m1)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    for x, y in ((a, b), (b, a)):
        n = cint(x)
        if n is not None:
            c, m = _lin(y)
            return mklin(c * n, {t: k * n for t, k in m.items()})
    return mk('bin', 'Mul', *sorted((a, b), key=lambda x: x.id))


def _mono(m):
    """is the linear form the difference of two consecutive entries of an offsets-array of the graph (1), or its opposite (-1)?"""
    if len(m) != 2:
        return 0
    (x, i), (y, j) = m.items()
    if i + j != 0 or abs(i) != 1 or x.op != 'idx' or y.op != 'idx' or x.a[0] is not y.a[0]:
        return 0
    o = x.a[0]
    if o.op != 'fld' or not str(o.a[2]).endswith('offsets'):
        return 0
    s = cint(isub(x.a[1], y.a[1]))
    return i * s if s in (1, -1) else 0


def ineg(d, unsigned=False):
    """condition d < 0 over the integers"""
    c, m = _lin(d)
    if not m:
        return B(c < 0)
    # offsets never decrease (P13 and P14 decide that of the arrays)
    s = _mono(m)
    if s:
        n = mklin(0, {t: k * s for t, k in m.items()})
        if s > 0 and c >= -1:
            return FALSE if c >= 0 else izero(n)
        if s < 0 and c <= 0:
            return TRUE if c < 0 else NOT(izero(n))
    ts = sorted(m.items(), key=lambda x: x[0].id)
    if len(ts) == 1 and unsigned:
        t, k = ts[0]
        if k == 1 and c == -1:
            return izero(t)
        if k == 1 and c >= 0:
            return FALSE
        if k == -1 and c == 0:
            return NOT(izero(t))
    if ts[0][1] < 0:
        c2, m2 = -c - 1, {t: -k for t, k in m.items()}
        return NOT(_atom(mk('neg', mklin(c2, m2))))
    return _atom(mk('neg', d))


def izero(d):
    c, m = _lin(d)
    if not m:
        return B(c == 0)
    ts = sorted(m.items(), key=lambda x: x[0].id)
    if ts[0][1] < 0:
        d = mklin(-c, {t: -k for t, k in m.items()})
    return _atom(mk('zero', d))


# ------------------------------------------------------------------ traversal
def subterms(t, seen=None):
    """all distinct subterms (through tuples)"""
    seen = set() if seen is None else seen
    st = [t]
    out = []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.a)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rewrite(t, f):
    """bottom-up rewrite; f(term) -> term"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'c':
                r = f(x)
            elif x.op == 'ite':
                r = ITE(cond(go(x.a[0])), go(x.a[1]), go(x.a[2]))
            elif x.op == 'lin':
                r = I(x.a[0])
                for y, k in x.a[1]:
                    r = iadd(r, imul(I(k), go(y)))
            else:
                r = f(mk(x.op, *[go(y) for y in x.a]))
            memo[x.id] = r
        return r

    return go(t)


# ------------------------------------------------------------------ display
def _short(p):
    if not isinstance(p, str):
        return str(p)
    import re
    return re.sub(r'[A-Za-z_0-9]+::', '', p)


def show(t, d=8):
    if isinstance(t, tuple):
        return '(' + ','.join(show(x, d) for x in t) + ')'
    if not isinstance(t, T):
        return _short(t)
    if d <= 0:
        return '…'
    o, a = t.op, t.a
    d -= 1
    if o == 'c':
        return repr(a[1]) if a[0] == 'str' else str(a[1])
    if o == 'fld':
        return show(a[0], d) + '.' + str(a[2])
    if o == 'vfld':
        return show(a[0], d) + '#' + a[1] + '.' + str(a[2])
    if o == 'idx':
        return show(a[0], d) + '[' + show(a[1], d) + ']'
    if o == 'agg':
        n = _short(a[1]) if a[0] == 'adt' else ('' if a[0] == 'tuple' else a[0] + _short(a[1]))
        if a[2] and a[0] == 'adt' and a[2] != n:
            n += '::' + a[2]
        return n + '{' + ','.join((f + ':' if not f.isdigit() else '') + show(x, d) for f, x in zip(a[3] or [''] * len(a[4]), a[4])) + '}'
    if o == 'lin':
        return '(' + '+'.join(([str(a[0])] if a[0] else []) + [('%d*' % k if k != 1 else '') + show(x, d) for x, k in a[1]]) + ')'
    if o == 'bin':
        return '(' + show(a[1], d) + ' ' + a[0] + ' ' + show(a[2], d) + ')'
    if o == 'ite':
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + show(a[0], d)
        if a[2] is FALSE:
            return '(' + show(a[0], d) + ' & ' + show(a[1], d) + ')'
        if a[1] is FALSE:
            return '(!' + show(a[0], d) + ' & ' + show(a[2], d) + ')'
        return '(' + show(a[0], d) + ' ? ' + show(a[1], d) + ' : ' + show(a[2], d) + ')'
    if o == 'is':
        return show(a[0], d) + ' is ' + a[2]
    if o == 'ref':
        return '&' + show_ptr(t)
    if o == 'rng':
        return 'i%d.%d' % (a[0], a[1])
    if o == 'more':
        return 'in(%s)' % show(a[0], d)
    if o == 'arg':
        return '$' + str(a[0])
    if o == 'call':
        return _short(a[0]) + '(' + ','.join(show(x, d) for x in a[2]) + ')' + ('@%s' % (a[3],) if a[3] else '')
    if o == 'zero':
        return '0==' + show(a[0], d)
    if o == 'neg':
        return show(a[0], d) + '<0'
    return o + '(' + ','.join(show(x, d) for x in a) + ')'


def show_ptr(t):
    cell, path = t.a
    s = show(cell[1]) if cell[0] == 'p' else '_'.join(map(str, cell))
    for e in path:
        if e[0] == 'i':
            s += '[' + show(e[1], 4) + ']'
        elif e[0] == 'vf':
            s += '#' + e[1] + '.' + e[2]
        else:
            s += '.' + e[1]
    return s
