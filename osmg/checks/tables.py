"""Rules about tables: units (P08, P09), street types (P11), ways of a pbf-map (P12)."""
import re
from fractions import Fraction as Q
from ..lib import *
from . import tagtexts

PU = 'osmgraphing::configs::parsing::edges::metrics::UnitInfo'
GU = 'osmgraphing::configs::parsing::generating::edges::metrics::UnitInfo'
# unit -> (dimension, factor to the base unit)
UNITS = {'Meters': ('length', Q(1)), 'Kilometers': ('length', Q(1000)), 'Seconds': ('time', Q(1)), 'Minutes': ('time', Q(60)), 'Hours': ('time', Q(3600)),
         'KilometersPerHour': ('speed', Q(1000, 3600)), 'MetersPerSecond': ('speed', Q(1)), 'LaneCount': ('lanes', Q(1)), 'F64': (None, Q(1))}


def names(C, adt):
    return [v['name'] for v in (C.P.adts.get(adt) or {'variants': []})['variants']]


def number(t):
    if t.op == 'c' and t.a[0] != 'str':
        try:
            return Q(str(t.a[1])) if not isinstance(t.a[1], bool) else None
        except (ValueError, ZeroDivisionError):
            return None
    return None


def quantity(t):
    """(coefficient, {value: exponent}) of a product; the newtypes of kissunits hold the plain number in their unit.  None: not understood"""
    n = number(t)
    if n is not None:
        return n, {}
    if t.op == 'arg':
        return Q(1), {t: 1}
    if t.op == 'agg' and t.a[0] == 'adt' and t.a[1].startswith('kissunits::') and len(t.a[4]) == 1:
        return quantity(t.a[4][0])
    if t.op == 'fld' and str(t.a[1]).startswith('kissunits::') and t.a[2] == '0':
        return quantity(t.a[0])
    if t.op == 'cast':
        return quantity(t.a[-1])
    if t.op == 'unitconv':
        a, b = UNITS.get(t.a[0]), UNITS.get(t.a[1])
        r = quantity(t.a[2])
        if r is None or a is None or b is None or a[0] != b[0]:
            return None
        return r[0] * a[1] / b[1], r[1]
    op, xs = None, None
    if t.op == 'bin' and t.a[0] in ('Mul', 'Div'):
        op, xs = t.a[0], t.a[1:]
    elif t.op in ('div', 'mul') and len(t.a) == 2:
        op, xs = t.op.capitalize(), t.a
    elif t.op == 'call' and t.a[0].split('::')[-1] in ('div', 'mul') and len(t.a[2]) == 2:
        op, xs = t.a[0].split('::')[-1].capitalize(), t.a[2]
    if op is None:
        return None
    a, b = quantity(xs[0]), quantity(xs[1])
    if a is None or b is None:
        return None
    s = 1 if op == 'Mul' else -1
    if s < 0 and b[0] == 0:
        return None
    m = dict(a[1])
    for k, e in b[1].items():
        m[k] = m.get(k, 0) + s * e
    return (a[0] * b[0] if s > 0 else a[0] / b[0]), {k: e for k, e in m.items() if e}


def same_quantity(q, coef, mono):
    return q[1] == mono and abs(q[0] - coef) <= abs(coef) * Q(1, 10 ** 12)


def judge(C, key, where, E, care, want, what):
    """want: None (an error) or (coefficient, monomial)"""
    rs = ret_under(E, care)
    if not rs:
        C.undec(key, where, 'no result')
        return
    for c, x in rs:
        v = variant_of(x)
        if v == 'Err' or v is None and x is UNDEF:
            C.decide(key, want is None, where, '%s is an error' % what)
        elif v == 'Ok':
            if want is None:
                C.viol(key, where, '%s has to be an error, but is %s' % (what, show(restrict(x, c), 6)))
                continue
            for c2, y in leaves(x.a[4][0], c):
                q = quantity(y)
                C.decide(key, q is not None and same_quantity(q, *want), where, '%s: %s' % (what, show(y, 6)), decidable=q is not None)
        else:
            C.undec(key, where, show(x, 5))


def wanted(a, b):
    (da, fa), (db, fb) = UNITS[a], UNITS[b]
    if a == b or 'F64' in (a, b):
        return Q(1)
    return fa / fb if da == db else None


def p08(pid, tier):
    C = Check(pid, tier, 'the conversion is evaluated for every ordered pair of units: its result is the value times the exact ratio of the units (products, quotients and conversions of the unit types are folded to one rational factor), and an error exactly between different dimensions')
    X = mk('arg', 2)
    for adt in (PU, GU):
        us = names(C, adt)
        E = C.run(adt + '::try_convert')
        if E is None:
            continue
        tag = 'edges' if adt == PU else 'generating'
        for a in us:
            for b in us:
                k = '%s:%s->%s' % (tag, a, b)
                if a not in UNITS or b not in UNITS:
                    C.undec(k, adt, 'unknown unit')
                    continue
                f = wanted(a, b)
                judge(C, k, adt + '::try_convert', E, AND(E.is_(mk('arg', 0), adt, a), E.is_(mk('arg', 1), adt, b)), None if f is None else (f, {X: 1}), '%s in %s' % (a, b))
    # the infallible variant delivers the same value
    E = C.run(PU + '::convert') if C.P.find(PU + '::convert') is not None else None
    if E is not None:
        for a in names(C, PU):
            for b in names(C, PU):
                if a in UNITS and b in UNITS and wanted(a, b) is not None:
                    care = AND(E.is_(mk('arg', 0), PU, a), E.is_(mk('arg', 1), PU, b))
                    for c, y in ret_under(E, care):
                        q = quantity(y)
                        C.decide('convert:%s->%s' % (a, b), q is not None and same_quantity(q, wanted(a, b), {X: 1}), PU + '::convert', '%s in %s: %s' % (a, b, show(y, 5)), decidable=q is not None)
    return C.finish(min_ok=60)


def p09(pid, tier):
    C = Check(pid, tier, 'the calculation is evaluated for every triple of units: where it delivers a value, the value is the product or quotient of the operands whose unit is the requested one, with the exact rational factor; the documented combinations are available')
    E = C.run(GU + '::try_calc')
    if E is not None:
        A, B = mk('arg', 2), mk('arg', 4)
        us = names(C, GU)
        for u in us:
            for a in us:
                for b in us:
                    if not all(x in UNITS for x in (u, a, b)):
                        continue
                    key = 'calc:%s=%s,%s' % (u, a, b)
                    care = AND(E.is_(mk('arg', 0), GU, u), E.is_(mk('arg', 1), GU, a), E.is_(mk('arg', 3), GU, b))
                    need = a == 'Kilometers' and (b == 'KilometersPerHour' and UNITS[u][0] == 'time' or b == 'Hours' and u == 'KilometersPerHour')
                    ok = physical(u, a, b)
                    for c, x in ret_under(E, care):
                        v = variant_of(x)
                        if v == 'Err':
                            C.decide(key, not need, GU + '::try_calc', '%s of %s and %s%s' % (u, a, b, ' can be calculated' if need else ' is an error'))
                        elif v == 'Ok':
                            for c2, y in leaves(x.a[4][0], c):
                                q = quantity(y)
                                good = q is not None and ok is not None and same_quantity(q, ok[0], {A: ok[1], B: ok[2]})
                                C.decide(key, good, GU + '::try_calc', '%s of %s and %s: %s%s' % (u, a, b, show(y, 6), '' if ok else ' although the dimensions do not fit'), decidable=q is not None)
                        else:
                            C.undec(key, GU, show(x, 4))
    return C.finish(min_ok=100)


DIMS = {'length': (1, 0), 'time': (0, 1), 'speed': (1, -1)}


def physical(u, a, b):
    """(factor, exponent of a, exponent of b) making a quantity of unit u out of values in units a and b"""
    if any(UNITS[x][0] not in DIMS for x in (u, a, b)):
        return None
    du, da, db = (DIMS[UNITS[x][0]] for x in (u, a, b))
    for ea, eb in ((1, -1), (1, 1), (-1, 1)):
        if all(du[i] == ea * da[i] + eb * db[i] for i in (0, 1)):
            return UNITS[a][1] ** ea * UNITS[b][1] ** eb / UNITS[u][1], ea, eb
    return None


# ------------------------------------------------------------------ P11
ST = 'osmgraphing::network::StreetCategory'
SI = 'osmgraphing::defaults::network::<impl osmgraphing::network::StreetCategory>::'
VC = 'osmgraphing::network::vehicles::Category'
# type: lanes, km/h, cars, bicycles, pedestrians (y: always, p: unless drivers are picky, n: never)
STREETS = {
    'Motorway': (3, 130, 'y', 'n', 'n'), 'MotorwayLink': (1, 50, 'y', 'n', 'n'),
    'Trunk': (2, 100, 'y', 'n', 'n'), 'TrunkLink': (1, 50, 'y', 'n', 'n'),
    'Primary': (2, 100, 'y', 'p', 'n'), 'PrimaryLink': (1, 30, 'y', 'p', 'n'),
    'Secondary': (1, 70, 'y', 'p', 'n'), 'SecondaryLink': (1, 30, 'y', 'p', 'n'),
    'Tertiary': (1, 70, 'y', 'y', 'n'), 'TertiaryLink': (1, 30, 'y', 'y', 'n'),
    'Unclassified': (1, 50, 'y', 'y', 'n'), 'Residential': (1, 50, 'y', 'y', 'y'), 'LivingStreet': (1, 15, 'y', 'y', 'y'),
    'Service': (1, 20, 'n', 'y', 'y'), 'Track': (1, 30, 'p', 'p', 'y'), 'Road': (1, 50, 'n', 'n', 'n'),
    'Cycleway': (1, 25, 'n', 'y', 'n'), 'Pedestrian': (1, 5, 'n', 'p', 'y'), 'Path': (1, 15, 'n', 'p', 'y')}
TAGS = {'motorway': 'Motorway', 'motorway_link': 'MotorwayLink', 'trunk': 'Trunk', 'trunk_link': 'TrunkLink', 'primary': 'Primary', 'primary_link': 'PrimaryLink',
        'secondary': 'Secondary', 'secondary_link': 'SecondaryLink', 'tertiary': 'Tertiary', 'tertiary_link': 'TertiaryLink', 'unclassified': 'Unclassified',
        'residential': 'Residential', 'living_street': 'LivingStreet', 'service': 'Service', 'track': 'Track', 'road': 'Road', 'cycleway': 'Cycleway',
        'pedestrian': 'Pedestrian', 'footway': 'Pedestrian', 'steps': 'Pedestrian', 'path': 'Path', 'bridleway': 'Cycleway'}
NOWAY = ['construction', 'proposed', 'planned', 'abandoned', 'disused', 'razed', 'demolished', 'removed', 'platform', 'bus_stop', 'rest_area', 'services', 'raceway', 'no', 'via_ferrata', 'escape', 'something else']
SPEEDS = {'de:motorway': 130, 'de:urban': 50, 'de:zone:30': 30, 'de:zone30': 30, 'walk': 15, 'de:walk': 15, 'de:living_street': 15, 'de:bicycle_road': 25,
          'none': None, 'signals': None, 'variable': None, 'de:rural': None, 'something else': None}
ONEWAY = {'yes': (1, 0), '1': (1, 0), '-1': (1, 1), 'no': (0, 0), 'reversible': (0, 0), 'alternating': (0, 0), 'something else': (0, 0)}

SPEEDS = {**tagtexts.SPEEDS, **SPEEDS}
ONEWAY = {**tagtexts.ONEWAY, **ONEWAY}
TAGS = {**tagtexts.TAGS, **TAGS}
NOWAY = sorted(set(tagtexts.NOWAY) | set(NOWAY))


class Text:
    """decides the comparisons of one text with literals, after the known normalisations"""

    def __init__(self, E, tag):
        self.E, self.tag, self.odd, self.altered = E, tag, set(), set()

    def base(self, t):
        """is t the text of the tag?  -> (prefix literal, normalisations)"""
        norm = set()
        pre = ''
        while True:
            if t.op == 'call' and t.a[0].split('::')[-1] in ('trim', 'to_ascii_lowercase', 'to_lowercase', 'trim_start', 'trim_end'):
                norm.add('lower' if 'lower' in t.a[0] else 'trim')
                t = t.a[2][0]
            elif t.op == 'fmt' and len(t.a[0]) == 2 and t.a[0][0][0] == 'lit' and t.a[0][1][0] == 'arg':
                pre = t.a[0][0][1] + pre
                t = t.a[0][1][2]
            elif t.op == 'call' and t.a[0].split('::')[-1] in ('as_ref', 'as_str', 'deref', 'to_owned', 'to_string', 'clone', 'borrow', 'into'):
                t = t.a[2][0]
            else:
                break
        return (pre, norm) if self.is_tag(t) else None

    def is_tag(self, t):
        return t.op == 'vfld' and t.a[1] == 'Some' and self.is_get(t.a[0])

    def is_get(self, t):
        return t.op == 'call' and t.a[0].split('::')[-1] == 'get' and len(t.a[2]) == 2 and t.a[2][1] is S(self.tag)

    def is_number(self, t):
        if t.op != 'call' or t.a[0].split('::')[-1] != 'parse' or not contains(t, self.is_get):
            return False
        if self.base(t.a[2][0]) is None:
            self.altered.add(t.a[2][0])
        return True

    def fits(self, t, num):
        k = t.a[1][0] if t.a[1] else ''
        m = re.fullmatch('([ui])(8|16|32|64|128|size)', str(k))
        if not m:
            return True
        bits = 64 if m.group(2) == 'size' else int(m.group(2))
        return 0 <= num < 1 << bits if m.group(1) == 'u' else -(1 << bits - 1) <= num < 1 << bits - 1

    def given(self, v, text, missing=False, num=None):
        """value of v if the tag has this text (not a number, if num is not given)"""
        E = self.E

        def f(t):
            if t.op == 'is' and self.is_get(t.a[0]):
                return B((t.a[2] == 'Some') != missing)
            if t.op == 'is' and self.is_number(t.a[0]):
                return B((t.a[2] == 'Ok') == (num is not None and self.fits(t.a[0], num)))
            if t.op == 'vfld' and t.a[1] == 'Ok' and self.is_number(t.a[0]):
                return I(num) if num is not None else t
            if t.op == 'eq' and text is not None:
                for a, b in (t.a, t.a[::-1]):
                    if b.op == 'c' and b.a[0] == 'str':
                        r = self.base(a)
                        if r is not None:
                            if b.a[1] == r[0] + text:
                                self.odd |= {'trim', 'lower'} - r[1]
                            return B(b.a[1] == r[0] + text)
            if t.op == 'neg' and num is not None and t.a[0].op == 'c':
                return B(t.a[0].a[1] < 0)
            if t.op == 'cast' and t.a[-1].op == 'c':
                return t.a[-1]
            return t
        return rebuild(E, v, f)


def p11(pid, tier):
    C = Check(pid, tier, 'the tables of street types are evaluated for every type: who may use it, default speed limit and number of lanes; tags are followed from their text (trimmed, any case) to type, speed and direction, by deciding the comparisons with literals')
    sts = names(C, ST)
    E = C.run(SI + 'is_for')
    if E is not None:
        for s in sts:
            if s not in STREETS:
                C.undec('is_for:' + s, SI, 'new street type')
                continue
            for i, v in ((2, 'Car'), (3, 'Bicycle'), (4, 'Pedestrian')):
                for picky in (True, False):
                    care = AND(E.is_(mk('arg', 0), ST, s), E.is_(mk('arg', 1), VC, v), cond(mk('arg', 2)) if picky else NOT(cond(mk('arg', 2))))
                    want = STREETS[s][i] == 'y' or STREETS[s][i] == 'p' and not picky
                    r = restrict(cond(E.ret), care)
                    C.decide('is_for:%s:%s:%s' % (s, v, 'picky' if picky else 'any'), r is B(want), SI + 'is_for', '%s %s be used by %s%s: %s' % (s, 'can' if want else 'cannot', v, ' with picky drivers' if picky else '', show(r, 4)), decidable=r in (TRUE, FALSE))
    for fn, i, what in (('parse_lane_count', 0, 'lanes'), ('parse_maxspeed', 1, 'speed limit')):
        E = C.run(SI + fn)
        if E is None:
            continue
        tx = Text(E, 'maxspeed')
        for s in sts:
            if s not in STREETS:
                continue
            v = restrict(undrop(E.ret), E.is_(mk('arg', 0), ST, s))
            v = tx.given(v, None, missing=True)
            n = number(undrop(v))
            C.decide('%s:%s' % (fn, s), n == STREETS[s][i], SI + fn, 'default %s of %s: %s' % (what, s, show(v, 4)), decidable=n is not None)
        if fn == 'parse_maxspeed':
            for s in ('Primary', 'Path'):
                v = restrict(undrop(E.ret), E.is_(mk('arg', 0), ST, s))
                for n in (0, 3, 5, 6, 50, 120, 130, 131, 300, 65535):
                    x = undrop(tx.given(v, str(n), num=n))
                    C.decide('maxspeed:number:%s:%d' % (s, n), number(x) == max(5, n), SI + fn, 'a speed limit of %d is used, but not less than 5: %s' % (n, show(x, 4)), decidable=number(x) is not None)
                alt = [t for t in tx.altered]
                C.decide('maxspeed:number:text', not alt, SI + fn, 'a number is the whole text of the tag: %s' % ', '.join(show(t, 4) for t in alt[:2]), decidable=any(t.op == 'call' and t.a[0].split('::')[-1] in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'replace', 'strip_prefix', 'strip_suffix') for t in alt))
                tx.odd = set()
                for t, n in SPEEDS.items():
                    x = undrop(tx.given(v, t))
                    w = STREETS[s][1] if n is None else n
                    C.decide('maxspeed:text:%s:%s' % (s, t), number(x) == w, SI + fn, 'the speed limit "%s" means %d: %s' % (t, w, show(x, 4)), decidable=number(x) is not None)
                C.decide('maxspeed:text:any-case', not tx.odd, SI + fn, 'texts are compared without regard to case and spaces around them', decidable=bool(tx.odd))
    E = C.run(SI + 'parse_oneway')
    if E is not None:
        tx = Text(E, 'oneway')

        def pair(v):
            return tuple(cond(x) for x in v.a[4]) if v.op == 'agg' and len(v.a[4]) == 2 else None
        cases = [(t, tx.given(E.ret, t), w) for t, w in ONEWAY.items()] + [('missing', tx.given(E.ret, None, missing=True), (0, 0))]
        for t, v, w in cases:
            r = pair(v)
            want = tuple(B(bool(b)) for b in w)
            C.decide('oneway:' + t, r == want, SI + 'parse_oneway', 'oneway %s means (one way, reverse) = %s: %s' % (t, w, show(v, 4)), decidable=r is not None and all(x in (TRUE, FALSE) for x in r))
        C.decide('oneway:any-case', not tx.odd, SI + 'parse_oneway', 'texts are compared without regard to case and spaces around them', decidable=bool(tx.odd))
        r = pair(E.ret)
        if r is not None:
            C.decide('oneway:reverse', implies(r[1], r[0]), SI + 'parse_oneway', 'only one-way streets are reversed', decidable=False)
    E = C.run(SI + 'from')
    if E is not None:
        tx = Text(E, 'highway')
        for t, w in list(TAGS.items()) + [(n, None) for n in NOWAY]:
            v = tx.given(E.ret, t)
            ls = leaves(v)
            for c, x in ls:
                k = variant_of(x)
                got = None
                if k == 'Some':
                    got = variant_of(x.a[4][0]) if variant_of(x.a[4][0]) else '?'
                C.decide('highway:' + t, k in ('Some', 'None') and got == w, SI + 'from', 'highway %s is %s: %s' % (t, w or 'no street', show(x, 4)), decidable=k in ('Some', 'None') and got != '?')
        for c, x in leaves(tx.given(E.ret, None, missing=True)):
            C.decide('highway:missing', variant_of(x) == 'None', SI + 'from', 'a way without highway-tag is no street', decidable=variant_of(x) is not None)
        C.decide('highway:any-case', not tx.odd, SI + 'from', 'texts are compared without regard to case and spaces around them', decidable=bool(tx.odd))
    return C.finish(min_ok=100)


# ------------------------------------------------------------------ P12
PBF = '<osmgraphing::io::parsing::network::graph::pbf::Parser as osmgraphing::io::parsing::network::graph::Parsing>::'
PC = 'osmgraphing::configs::parsing::'
PE = 'osmgraphing::network::graph::building::ProtoEdge'
UNIT_ADT = PC + 'edges::metrics::UnitInfo'
CAT = PC + 'edges::Category'
META = PC + 'edges::MetaInfo'


class Small:
    """evaluates an understood value for a small number of nodes and given answers of the tests; None: not understood"""

    def __init__(self, nodes, n, rngs, atoms, same=None):
        self.nodes, self.n, self.rngs, self.atoms = nodes, n, rngs, atoms
        self.same = same or {}

    def who(self, v):
        # which node is at a position: positions of `same` hold the same node
        return ('node', self.same.get(v[1], v[1])) if isinstance(v, tuple) else v

    def val(self, t):
        if t in self.rngs:
            return self.rngs[t]
        k = cint(t)
        if k is not None:
            return k
        if t.op == 'lin':
            r = t.a[0]
            for x, k in t.a[1]:
                v = self.val(x)
                if not isinstance(v, int):
                    return None
                r += k * v
            return r
        if t.op == 'ite':
            c = self.test(t.a[0])
            return None if c is None else self.val(t.a[1] if c else t.a[2])
        if t.op == 'len':
            return self.n if t.a[0] is self.nodes else None
        if t.op == 'fld' and t.a[2] == '0':
            v = self.val(t.a[0])
            return v if isinstance(v, tuple) else None
        if t.op == 'idx' and t.a[0] is self.nodes:
            i = self.val(t.a[1])
            return ('node', i) if isinstance(i, int) else None
        if t.op == 'minlen':
            vs = [self.val(x) for x in t.a]
            return min(vs) if all(isinstance(v, int) for v in vs) else None
        return None

    def test(self, c):
        if c in (TRUE, FALSE):
            return c is TRUE
        if c.op == 'ite':
            x = self.test(c.a[0])
            if x is None:
                a, b = self.test(c.a[1]), self.test(c.a[2])
                return a if a is not None and a == b else None
            return self.test(c.a[1] if x else c.a[2])
        if c in self.atoms:
            return self.atoms[c]
        if c.op in ('neg', 'zero'):
            v = self.val(c.a[0])
            return None if not isinstance(v, int) else v < 0 if c.op == 'neg' else v == 0
        if c.op == 'eq':
            v, w = self.val(c.a[0]), self.val(c.a[1])
            return None if v is None or w is None else self.who(v) == self.who(w)
        if c.op == 'more' and c.a[0] in self.rngs and c.a[0].op == 'rng':
            n = self.val(c.a[0].a[2])
            return None if not isinstance(n, int) else self.rngs[c.a[0]] < n
        return None


def callee(t, name):
    return t.op == 'call' and t.a[0].split('::')[-1] == name and ('StreetCategory' in t.a[0])


def is_way(t):
    return t.op == 'vfld' and t.a[1] == 'Way'


def p12_ways(C):
    no = {f['path'] for f in C.P.fns.values() if 'StreetCategory' in f['path'] or f['path'].endswith('EdgeBuilder::insert')}
    w = PBF + 'parse_ways'
    E = C.run(w, no_inline=no)
    if E is None:
        return
    ins = [e for e in E.eff if e.kind == 'call' and e.name.endswith('EdgeBuilder::insert')]
    if not ins:
        C.undec('ways:insert', w, 'no insertion of edges found')
        return
    got = {}
    bad = False
    rows = []
    for e in ins:
        pe = e.vals[1] if e.vals else None
        if pe is None or pe.op != 'agg' or pe.a[1] != PE:
            C.undec('ways:edge', w, 'the inserted value is not understood: %s' % show(pe, 4) if pe is not None else '')
            return
        d = dict(zip(pe.a[3], pe.a[4]))
        rows.append((e, counted(E, d['src_id']), counted(E, d['dst_id']), d['metrics'], d['id'], counted(E, e.pc)))
    every = {x for r in rows for t in (r[1], r[2], r[5]) for x in subterms(t)}
    nodes = {x for x in every if x.op == 'fld' and x.a[2] == 'nodes' and is_way(x.a[0])}
    cats = {x for x in every if callee(x, 'from')}
    ones = {x for x in every if callee(x, 'parse_oneway')}
    fors = {x for x in every if callee(x, 'is_for')}
    for k, what in ((nodes, 'nodes of a way'), (cats, 'street type'), (fors, 'access')):
        if len(k) != 1:
            C.undec('ways:' + what, w, '%d candidates' % len(k))
            if k is nodes:
                return
    nodes = list(nodes)[0]
    way = nodes.a[0]

    def base(x):
        while x.op == 'with' and all(q[0][:2] == ('f', 'nodes') for q in x.a[1]):
            x = x.a[0]
        return x
    for x in cats | ones:
        C.decide('ways:same-way:' + x.a[0].split('::')[-1], base(x.a[2][-1]) is way, w, 'street type and direction belong to the way whose nodes are connected: %s' % show(x, 4), decidable=known(base(x.a[2][-1]), ('vfld', 'call', 'rng')))
    # who may use it
    if len(fors) == 1:
        f = list(fors)[0]
        a = f.a[2]
        got_cat = a[0].op == 'vfld' and a[0].a[1] == 'Some' and callee(a[0].a[0], 'from')
        C.decide('ways:access:type', got_cat, w, 'access is decided by the street type of the way: %s' % show(a[0], 4), decidable=known(a[0], ('vfld', 'call', 'rng')))
        for i, nm in ((1, 'category'), (2, 'are_drivers_picky')):
            x = a[i]
            C.decide('ways:access:' + nm, x.op == 'fld' and x.a[2] == nm and x.a[0].op == 'fld' and x.a[0].a[2] == 'vehicles', w, 'access is decided by the configured vehicles.%s: %s' % (nm, show(x, 4)), decidable=known(x, ('phi',)))
    # which tests decide about an insertion
    atoms = set()
    for r in rows:
        atoms |= set(atoms_of(r[5]))
    isfor = {x for x in atoms if x in fors}
    issome = {x for x in atoms if x.op == 'is' and x.a[0] in cats}
    for a in list(isfor) + list(issome):
        pass
    for r in rows:
        for c, what in ((NOT(AND(*[x if x.a[2] == 'Some' else NOT(x) for x in issome])) if issome else None, 'street type'), (NOT(AND(*isfor)) if isfor else None, 'access')):
            if c is None:
                C.decide('ways:needs:' + what, False, w, 'only ways with %s are read, but edges are inserted regardless' % what, decidable=bool(known(r[5], ('vfld', 'call', 'rng', 'phi', 'more', 'is', 'open', 'oopt', 'neg', 'zero', 'eq'))) and not contains(r[5], lambda t: t.op == 'opq'))
            else:
                x = restrict(r[5], c)
                C.decide('ways:needs:' + what, x is FALSE or AND(r[5], c) is FALSE, w, 'no edge of a way without %s: inserted if %s' % (what, show(x, 5)))
    flags = {x for x in every if x.op == 'fld' and x.a[0] in ones and x.a[2] in ('0', '1')}
    assign = {}
    free = []

    def is_tag(a):
        # a test of the tags of the way besides its street type, access and direction
        return contains(a, lambda t: t.op == 'fld' and t.a[2] == 'tags' and base(t.a[0]) is way) and not contains(a, lambda t: t.op == 'c' and t.a[0] == 'str' and str(t.a[1]).startswith('highway'))
    for a in atoms:
        if a in fors:
            assign[a] = True
        elif a.op == 'is' and a.a[0] in cats:
            assign[a] = a.a[2] == 'Some'
        elif is_tag(a):
            free.append(a)
        elif a.op == 'is' and not contains(a, lambda t: t in ones):
            assign[a] = a.a[2] in ('Ok', 'Way', 'Some', 'Continue') or (a.a[2] not in ('Node', 'Relation', 'Err', 'None', 'Break'))
    wayloop = {x for x in parts(way) if x.op == 'rng'}
    total = 0
    cases = []
    big = sorted({cint(x) for r in rows for t in (r[1], r[2], r[5]) for x in subterms(t) if cint(x) is not None and 5 < cint(x) <= 3000} | {-x.a[0] for r in rows for t in (r[1], r[2], r[5]) for x in subterms(t) if x.op == 'lin' and isinstance(x.a[0], int) and -3000 <= x.a[0] < -5} | {x.a[0] for r in rows for t in (r[1], r[2], r[5]) for x in subterms(t) if x.op == 'lin' and isinstance(x.a[0], int) and 5 < x.a[0] <= 3000})[:3]
    free = free[:3]
    for one, rev in ((0, 0), (1, 0), (1, 1)):
        for n in [0, 1, 2, 3, 4, 5] + [k + 3 for k in big]:
            for bits in range(1 << len(free)):
                tags = {a: bool(bits >> i & 1) for i, a in enumerate(free)}
                kind = ',tags=%d' % bits if bits else ''
                cases.append((one, rev, n, {}, tags, kind))
                if n >= 3 and not bits:
                    cases.append((one, rev, n, {n - 1: 0}, tags, ',closed'))
                    cases.append((one, rev, n, {1: 0}, tags, ',doubled'))
    for one, rev, n, same, tags, kind in cases:
        if True:
            asg = dict(assign)
            asg.update(tags)
            for f in flags:
                asg[f] = bool(one if f.a[2] == '0' else rev)
                asg[cond(f)] = asg[f]
            ev = []
            unk = None
            for e, s, d, m, i, pc in rows:
                rs = sorted({x for t in (s, d, pc) for x in parts(t) if x.op == 'rng' and x not in wayloop}, key=lambda x: x.id)
                cs = {}
                for x in {x for t in (s, d, pc) for x in subterms(t) if x.op == 'phi' and x in E.phi_ops}:
                    pi, pn = E.phi_ops[x]
                    step = cint(isub(pn, x)) if pn is not None and cint(pi) is not None else None
                    if step:
                        cs.setdefault(loopkey(x), []).append((x, cint(pi), step))
                if len(rs) + len(cs) > 2:
                    unk = 'too many loops'
                    break
                envs = [{}]
                for r in rs:
                    nx = []
                    for v in envs:
                        k = Small(nodes, n, v, asg, same).val(r.a[2])
                        if not isinstance(k, int) or k > 8 * n + 64:
                            unk = 'length of loop %s' % show(r, 4)
                            k = 0
                        nx += [dict(v, **{r: j}) if False else {**v, r: j} for j in range(k)]
                    envs = nx
                for ps in cs.values():
                    # a loop without iterator: its own condition limits it
                    envs = [{**v, **{x: i0 + k * j for x, i0, k in ps}} for v in envs for j in range(3 * n + 3)]
                base_asg = {**asg, **{mk('more', r): True for r in wayloop}}
                for v in envs:
                    sm_ = Small(nodes, n, v, base_asg, same)
                    t = sm_.test(pc)
                    if t is None:
                        unk = 'condition ' + show(restrict(pc, TRUE), 5)
                        break
                    if t:
                        a, b = sm_.val(s), sm_.val(d)
                        if not isinstance(a, tuple) or not isinstance(b, tuple):
                            unk = 'ends %s %s' % (show(s, 6), show(d, 6))
                            break
                        ev.append((a[1], b[1]))
            key = 'ways:edges:oneway=%d,reverse=%d,nodes=%d%s' % (one, rev, n, kind)
            if unk:
                C.undec(key, w, unk)
                continue
            fw = [(i, i + 1) for i in range(n - 1)]
            bw = [(b, a) for a, b in fw]
            want = bw if rev else fw if one else fw + bw
            total += 1
            C.decide(key, sorted(ev) == sorted(want), w, 'a way with %d nodes yields the edges %s (positions of nodes): %s' % (n, sorted(want), sorted(ev)))
    goes_on(C, E, [r[0] for r in rows], 'ways:loop')
    p12_broken(C, E, 'ways:broken', [r[0] for r in rows])
    # ids of pbf-edges and their metrics
    for e, s, d, m, i, pc in rows:
        for c, x in leaves(undrop(i)) if i.op == 'ite' else [(TRUE, i)]:
            C.decide('ways:id', variant_of(x) == 'None', w, 'edges of a pbf-map have no id of their own: %s' % show(x, 4), decidable=variant_of(x) is not None)
        g = grown(E, m)
        if g is None or not is_empty(g[0]):
            C.decide('ways:metrics:start', False, w, 'the metrics of a way start empty: %s' % show(g[0] if g else m, 4), decidable=g is not None and g[0].op == 'phi' and g[0] in E.phi_ops and E.phi_ops[g[0]][1] is not None)
            continue
        C.ok('ways:metrics:start', w, 'metrics start empty for every way')
        els = {x.a[0] for ks, c, vs in g[1] for a in atoms_of(c) for x in parts(a) if x.op == 'is' and x.a[1] == CAT} | {x.a[0] for ks, c, vs in g[1] for x in parts(c) if x.op == 'vfld' and x.a[1] == 'Metric'}
        if len(els) != 1:
            C.undec('ways:metrics', w, '%d subjects' % len(els))
            continue
        el = list(els)[0]
        C.decide('ways:metrics:categories', el.op == 'idx' and el.a[0].op == 'fld' and el.a[0].a[2] == 'categories' and el.a[1].op == 'rng' and el.a[1].a[2] is E.length(el.a[0]), w, 'metrics follow the configured order of columns: %s' % show(el, 4), decidable=el.op == 'idx' and el.a[1].op in ('rng', 'lin'))
        unit = [x for ks, c, vs in g[1] for a in atoms_of(c) for x in parts(a) if x.op == 'is' and x.a[1] == UNIT_ADT]
        if not unit:
            C.undec('ways:metrics:unit', w, '')
            continue
        un = unit[0].a[0]
        for u, fnm in (('KilometersPerHour', 'parse_maxspeed'), ('LaneCount', 'parse_lane_count')):
            care = AND(E.is_(el, CAT, 'Metric'), E.is_(un, UNIT_ADT, u))
            hit = [(c, v) for ks, c, vs in g[1] for v in vs if AND(c, care) is not FALSE]
            good = len(hit) == 1
            C.decide('ways:metrics:%s:once' % u, good, w, 'a column %s of a way gets one value: %d' % (u, len(hit)))
            for c, v in hit:
                x = undrop(v)
                while x.op == 'cast' or x.op == 'fld' and x.a[2] == '0' and str(x.a[1]).startswith('kissunits'):
                    x = undrop(x.a[-1] if x.op == 'cast' else x.a[0])
                C.decide('ways:metrics:%s:value' % u, callee(x, fnm) and base(x.a[2][-1]) is way, w, 'the value of a column %s is the %s of the way: %s' % (u, fnm, show(x, 4)), decidable=known(x, ('vfld', 'call', 'rng', 'with', 'reversed')))
    return


def p12_broken(C, E, key, effs):
    """an object of the map that cannot be decoded is an error, whatever made it undecodable"""
    its = {a.a[0] for e in effs for a in atoms_of(e.pc) if a.op == 'is' and a.a[1] == RESULT and a.a[0].op == 'idx' and a.a[0].a[1].op == 'rng' and contains(a.a[0], lambda t: t.op == 'call' and t.a[0].endswith('::par_iter'))}
    if len(its) != 1:
        C.undec(key, effs[0].fn, '%d kinds of objects' % len(its))
        return
    it = its.pop()
    bad = NOT(E.is_(it, RESULT, 'Ok'))
    ends = [pc for pc in E.exits.get(loopkey(it.a[1]), ()) if AND(pc, bad) is not FALSE and AND(pc, NOT(bad)) is FALSE]
    stays = AND(E.back_pc.get(loopkey(it.a[1]), FALSE), bad) is not FALSE
    odd = [a for pc in ends for a in atoms_of(restrict(pc, bad)) if contains(a, lambda t: t.op == 'vfld' and t.a[0] is it and t.a[1] == 'Err')]
    left = restrict(OR(*ends), bad) if ends else FALSE
    odd = [a for a in odd if restrict(left, a) is not restrict(left, NOT(a))]
    if ends and not stays and not odd:
        C.ok(key, effs[0].fn, 'every object that cannot be decoded makes reading fail')
    else:
        C.decide(key, False, effs[0].fn, 'objects that cannot be decoded are skipped%s' % (' depending on ' + ', '.join(show(a, 3) for a in odd[:2]) if odd else ''), decidable=bool(odd) or stays or not contains(AND(*E.exits.get(loopkey(it.a[1]), ())), lambda t: t.op == 'opq'))


def p12_nodes(C):
    w = PBF + 'parse_nodes'
    no = {f['path'] for f in C.P.fns.values() if f['path'].endswith('NodeBuilder::insert')}
    E = C.run(w, no_inline=no)
    if E is None:
        return
    ins = [e for e in E.eff if e.kind == 'call' and e.name.endswith('NodeBuilder::insert')]
    if not ins:
        C.undec('nodes:insert', w)
        return
    goes_on(C, E, ins, 'nodes:loop')
    p12_broken(C, E, 'nodes:broken', ins)
    for e in ins:
        pn = e.vals[1] if e.vals else None
        if pn is None or pn.op != 'agg' or not pn.a[1].endswith('::ProtoNode'):
            C.undec('nodes:node', w, '')
            continue
        d = dict(zip(pn.a[3], pn.a[4]))
        nd = {x for t in d.values() for x in parts(t) if x.op == 'vfld' and x.a[1] == 'Node'}
        if len(nd) != 1:
            C.decide('nodes:node', len(nd) == 0 and False, w, 'all parts come from the read node', decidable=False)
            continue
        nd = list(nd)[0]
        x = d['id']
        C.decide('nodes:id', x.op == 'fld' and x.a[2] == '0' and x.a[0].op == 'fld' and x.a[0].a[2] == 'id' and x.a[0].a[0] is nd, w, 'the id is the id of the node in the map: %s' % show(x, 5), decidable=known(x, ('vfld', 'call', 'rng')))
        x = d['coord']
        good = x.op == 'call' and x.a[0].endswith('::from_decimicro') and [(y.op == 'fld' and y.a[0] is nd and y.a[2]) for y in x.a[2]] == ['decimicro_lat', 'decimicro_lon']
        C.decide('nodes:coord', good, w, 'the coordinate is latitude and longitude of the node: %s' % show(x, 5), decidable=x.op == 'call' and x.a[0].endswith('::from_decimicro'))
        x = d.get('ch_level')
        if x is not None:
            C.decide('nodes:level', variant_of(x) == 'None', w, 'nodes of a pbf-map have no level: %s' % show(x, 4), decidable=variant_of(x) is not None)
        # every node of the map
        c = e.pc
        asg = {}
        for a in atoms_of(c):
            if a.op == 'is':
                asg[a] = a.a[2] in ('Ok', 'Node', 'Some', 'Continue')
            elif a.op == 'more':
                asg[a] = True
        t = Small(nd, 0, {}, asg).test(c)
        C.decide('nodes:all', t is True, w, 'every node of the map is offered to the builder', decidable=t is False)


def p12_pre(C):
    w = PBF + 'preprocess'
    E = C.run(w)
    if E is None:
        return
    els = set()
    for c, x in leaves(E.ret):
        for a in atoms_of(c):
            for y in parts(a):
                if y.op == 'is' and y.a[1] == CAT:
                    els.add(y.a[0])
    anys = {y for c, x in leaves(E.ret) for a in atoms_of(c) for y in parts(a) if y.op == 'any'}
    for adt, variant, okset in ((META, 'Meta', {'SrcId', 'DstId'}), (UNIT_ADT, 'Metric', {'KilometersPerHour', 'LaneCount'})):
        for v in names(C, adt):
            res = []
            for el in els:
                if el.op != 'idx':
                    continue
                sub = {y.a[0] for c, x in leaves(E.ret) for a in atoms_of(c) for y in parts(a) if y.op == 'is' and y.a[1] == adt and contains(y.a[0], lambda z: z is el)}
                if not sub:
                    continue
                care = AND(E.is_(el, CAT, variant), *[E.is_(y, adt, v) for y in sub])
                if el.a[1].op == 'rng':
                    care = AND(care, cond(mk('more', el.a[1])))
                for y in anys:
                    if y.a[0] is el.a[1] and restrict(y.a[1], care) is TRUE:
                        care = AND(care, cond(y))
                res.append({variant_of(x) for c, x in ret_under(E, care)})
            if not res or any(None in k or not k for k in res):
                C.undec('pbf:%s' % v, w, show(E.ret, 4))
            elif v not in okset:
                C.decide('pbf:%s' % v, {'Err'} in res, w, 'a column %s cannot be read from a pbf-map and is an error' % v)
            else:
                C.decide('pbf:%s' % v, all('Ok' in k for k in res), w, 'a column %s can be read from a pbf-map' % v)


def p12(pid, tier):
    C = Check(pid, tier, 'the edges inserted for a way are computed symbolically and instantiated for 0..5 nodes and every direction flag; the conditions of insertion, the metrics per column, the parts of nodes and the rejection of columns a pbf-map does not have are read off the same dataflow')
    p12_ways(C)
    p12_nodes(C)
    p12_pre(C)
    return C.finish(min_ok=30)


CHECKS = {'P08': p08, 'P09': p09, 'P11': p11, 'P12': p12}
