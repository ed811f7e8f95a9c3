"""Rules about metrics: generated metrics and configuration in step (P16), unique ids (P17), normalisation and positivity (P18)."""
from ..lib import *
from ..terms import _atom
from .graph import *

GE = 'osmgraphing::configs::parsing::generating::edges::'
GN = 'osmgraphing::configs::parsing::generating::nodes::'
PE = 'osmgraphing::configs::parsing::edges::'
CAT = GE + 'Category'
PCAT = PE + 'Category'
GU, PU = GE + 'metrics::UnitInfo', PE + 'metrics::UnitInfo'
MINFO, PINFO = GE + 'MetaInfo', PE + 'MetaInfo'
CONV, CALC = GU + '::try_convert', GU + '::try_calc'


def variants(C, adt):
    return [v['name'] for v in (C.P.adts.get(adt) or {'variants': []})['variants']]


class Gen:
    """the loop over the categories to generate"""

    def __init__(self, C):
        self.C, self.ok = C, False
        no = {f['path'] for f in C.P.fns.values() if f['path'].split('::')[-1] in ('try_convert', 'try_calc')}
        E = self.E = C.run(FIN, key='finc', no_inline=no, max_steps=300000)
        if E is None:
            return
        # loop-carried metrics and configuration
        self.phis = {}
        for p, (i, n) in E.phi_ops.items():
            if n is None or not isinstance(p.a[3], tuple):
                continue
            path = tuple(x[1] for x in p.a[3] if isinstance(x, tuple) and x[0] == 'f')
            self.phis.setdefault(loopkey(p), {})[path] = p
        want = ('cfg', 'edges', 'metrics', 'ids')
        ls = [k for k, m in self.phis.items() if want in m and ('metrics',) in m]
        if len(ls) != 1:
            C.undec('generating', FIN, 'the loop that adds metrics is not unique: %d' % len(ls))
            return
        self.loop = ls[0]
        self.m = self.phis[self.loop]
        cats = set()
        for p in self.m.values():
            for x in subjects([E.phi_ops[p][1]], CAT):
                if x.op == 'idx' and x.a[1].op == 'rng' and (x.a[1].a[0], x.a[1].a[1]) == self.loop:
                    cats.add(x)
        if len(cats) != 1:
            C.undec('generating', FIN, '%d different categories' % len(cats))
            return
        self.cat = cats.pop()
        self.bp = E.back_pc.get(self.loop, TRUE)
        self.ok = True

    def care(self, v):
        return AND(self.bp, self.E.is_(self.cat, CAT, v))

    def get(self, v, n):
        return mk('vfld', self.cat, v, n)

    def next(self, path, v, extra=TRUE):
        p = self.m.get(path)
        if p is None:
            return None, []
        return p, [(c, x) for c, x in leaves(self.E.phi_ops[p][1], AND(self.care(v), extra)) if c is not FALSE]


def same_unit(C, E, key, got, unit, care=TRUE):
    """the unit got is the unit of the same name"""
    for u in variants(C, GU):
        c = AND(care, E.is_(unit, GU, u))
        if c is FALSE:
            continue
        r = restrict(got, c)
        if r.op == 'agg':
            C.decide(key + ':' + u, r.a[2] == u, FIN, 'unit %s becomes %s' % (u, r.a[2]))
        elif r is unit:
            C.ok(key + ':' + u, FIN)
        else:
            bad = {variant_of(x) for cc, x in leaves(r, c)} if known(r) else set()
            C.decide(key + ':' + u, False, FIN, 'unit %s may become %s: %s' % (u, '/'.join(map(str, sorted(bad - {u}, key=str))), show(r, 4)), decidable=bool(bad - {u, None}))


def position_of(E, t, ids, want_id):
    """is t the position of the wanted id in the ids?  True/False/None"""
    t = undrop(t)
    if t.op == 'fld' and t.a[2] == '0':
        t = t.a[0]
    if t.op != 'first':
        return None
    r, c = t.a
    at = [a for a in atoms_of(c)]
    if len(at) != 1 or at[0].op != 'eq':
        return None
    a, b = at[0].a
    el = idx(ids, r)
    sides = [x.a[0] if x.op == 'fld' and x.a[2] == '0' else x for x in (a, b)]
    if el not in sides:
        return None
    o = sides[1] if sides[0] is el else sides[0]
    return o is want_id, o


def id_obl(C, E, key, t, ids, want, what):
    r = position_of(E, t, ids, want)
    if r is None:
        C.undec(key, FIN, '%s: %s' % (what, show(t, 6)))
        return
    C.decide(key, r[0], FIN, '%s is looked up by %s' % (what, show(r[1], 4)), decidable=known(r[1], ('phi',)))


def rows(C, G, v):
    """(how each row changes: value, row position, kind push/store index, condition) for the metrics under variant v"""
    E = G.E
    p, ls = G.next(('metrics',), v)
    out = []
    for c, x in ls:
        if x is p:
            out.append(('same', None, None, c, None))
            continue
        if x.op == 'collect':
            # rows mapped
            y, r = x.a[2], x.a[0]
            if y.op == 'push' and y.a[0] is idx(p, r):
                out.append(('push', y.a[1], None, c, (p, r)))
                continue
            return None
        if x.op != 'phi' or x not in E.phi_ops or E.phi_ops[x][0] is not p:
            return None
        q, n = x, E.phi_ops[x][1]
        for cc, y in leaves(n, E.back_pc.get(loopkey(q), TRUE)):
            if y is q:
                out.append(('skip', None, None, cc, (q, None)))
            elif y.op == 'store' and y.a[0] is q:
                r, w = y.a[1], y.a[2]
                if w.op == 'push' and w.a[0] is idx(q, r):
                    out.append(('push', w.a[1], None, cc, (q, r)))
                elif w.op == 'store' and w.a[0] is idx(q, r):
                    out.append(('store', w.a[2], w.a[1], cc, (q, r)))
                else:
                    return None
            else:
                return None
    return out


def all_rows(C, G, key, q, r):
    n = r.a[2] if r.op == 'rng' else None
    p = G.m[('metrics',)]
    base = {p, q, G.E.phi_ops.get(q, (None,))[0]}
    C.decide(key, n is not None and n.op == 'len' and n.a[0] in base, FIN, 'every edge gets the value: rows %s' % (show(n, 4) if n is not None else show(r, 4)), decidable=r.op != 'rng' or known(n, ('phi',)))


def added(C, G, v, src, idt, unit):
    """variant v adds one metric per edge plus its id, unit and category"""
    E = G.E
    for path, kind in ((('cfg', 'edges', 'metrics', 'ids'), 'id'), (('cfg', 'edges', 'metrics', 'units'), 'unit'), (('cfg', 'edges', 'categories'), 'category')):
        p, ls = G.next(path, v)
        key = 'generate:%s:%s' % (v, kind)
        if p is None or not ls:
            C.undec(key, FIN)
            continue
        for c, x in ls:
            if x is p:
                C.decide(key, False, FIN, 'the %s of the generated metric is added' % kind, decidable=True)
                continue
            if x.op != 'push' or x.a[0] is not p:
                C.decide(key, False, FIN, 'exactly one %s is added: %s' % (kind, show(x, 4)), decidable=x.op == 'push' and x.a[0].op == 'push' or x.op == 'mut' and any(t.op == 'call' and t.a[0].endswith('::insert') and any(cint(u) == 0 for u in t.a[2]) for t in subterms(x)))
                continue
            y = x.a[1]
            if kind == 'id':
                C.compare(key, y, idt, FIN, what='the added id')
            elif kind == 'unit':
                same_unit(C, E, key, restrict(y, c), unit, c)
            elif y.op == 'agg' and y.a[2] == 'Metric':
                d = dict(zip(y.a[3], y.a[4]))
                C.compare(key + ':id', d.get('id'), idt, FIN, what='the id of the added category')
                same_unit(C, E, key + ':unit', restrict(d.get('unit'), c), unit, c)
            else:
                C.decide(key, False, FIN, 'a metric is added: %s' % show(y, 4), decidable=y.op == 'agg')
    rs = rows(C, G, v)
    key = 'generate:%s:values' % v
    if rs is None:
        C.undec(key, FIN, 'rows')
        return []
    vals = []
    for kind, w, i, c, qr in rs:
        if kind == 'push':
            all_rows(C, G, key + ':all', *qr)
            vals.append((w, qr))
        else:
            C.decide(key, False, FIN, 'one value per edge is added (%s)' % kind, decidable=kind in ('same', 'store'))
    if not rs:
        C.undec(key, FIN)
    return vals


def fallible(w):
    """the call whose success the value is"""
    w = undrop(w)
    if w.op == 'vfld' and w.a[1] == 'Ok':
        w = w.a[0]
    return w if w.op == 'call' else None


def p16(pid, tier):
    C = Check(pid, tier, 'for every kind of category to generate: the value appended to (or, for conversions and merges, stored in) each row of metrics is computed from the operands named in the category, looked up by their ids; id, unit and category are appended (or replaced at the same position) exactly once, with the unit of the same name; the mapping of units covers every unit')
    G = Gen(C)
    if not G.ok:
        return C.finish()
    E = G.E
    ids = G.m[('cfg', 'edges', 'metrics', 'ids')]
    CM = GE + 'metrics::Category'
    sub = lambda t, n: fld(t, CM, n)
    have = variants(C, CAT)
    expected = {'Meta', 'Custom', 'Haversine', 'Copy', 'Convert', 'Calc', 'Merge'}
    for v in have:
        if v not in expected:
            C.undec('variant:' + v, FIN, 'unknown kind of category')
    if 'Custom' in have:
        for w, (q, r) in added(C, G, 'Custom', None, G.get('Custom', 'id'), G.get('Custom', 'unit')):
            C.compare('generate:Custom:value', w, G.get('Custom', 'default'), FIN, what='a custom metric has its default value')
    if 'Haversine' in have:
        for w, (q, r) in added(C, G, 'Haversine', None, G.get('Haversine', 'id'), G.get('Haversine', 'unit')):
            f = fallible(w)
            km = f
            if f is not None and f.a[0].endswith('try_convert'):
                u = f.a[2][0]
                C.decide('generate:Haversine:unit', u.op == 'agg' and u.a[2] == 'Kilometers' and f.a[2][1] is G.get('Haversine', 'unit'), FIN, 'the distance in kilometers is converted to the unit', decidable=u.op == 'agg')
                km = undrop(f.a[2][2])
                if km.op == 'vfld':
                    km = km.a[0]
            if km is None or 'haversine' not in str(km.a[0]):
                C.undec('generate:Haversine:value', FIN, show(w, 5))
                continue
            ends = set()
            good = True
            for a in km.a[2]:
                if a.op == 'vfld':
                    a = a.a[0]
                if a.op == 'idx' and a.a[0].op in ('fld', 'collect', 'vfld'):
                    d = undrop(a.a[1])
                    d = d.a[0] if d.op == 'fld' and d.a[2] == '0' else d
                    if d.op == 'idx':
                        # an array of the graph at the row's position
                        nm = [k for k in ('fwd_dsts', 'bwd_dsts') if F_array(C, E, k) is d.a[0]]
                        if nm and d.a[1] is r:
                            ends.add(nm[0])
                            continue
                        if nm:
                            C.decide('generate:Haversine:edge', False, FIN, 'the distance is that of the edge of the row: %s' % show(d, 4), decidable=known(d.a[1]))
                good = False
            C.decide('generate:Haversine:ends', ends == {'fwd_dsts', 'bwd_dsts'}, FIN, 'the distance is that between source and destination of the edge (%s)' % ', '.join(sorted(ends)), decidable=good)
    if 'Copy' in have:
        fr, to = G.get('Copy', 'from'), G.get('Copy', 'to')
        for w, (q, r) in added(C, G, 'Copy', None, sub(to, 'id'), sub(to, 'unit')):
            converted(C, E, 'generate:Copy', w, fr, to, idx(q, r), ids, sub)
    if 'Calc' in have:
        a, b, res = (G.get('Calc', n) for n in ('a', 'b', 'result'))
        for w, (q, r) in added(C, G, 'Calc', None, sub(res, 'id'), sub(res, 'unit')):
            f = fallible(w)
            if f is None or not f.a[0].endswith('try_calc') or len(f.a[2]) != 5:
                C.undec('generate:Calc:value', FIN, show(w, 5))
                continue
            x = f.a[2]
            for got, want, what in ((x[0], sub(res, 'unit'), 'result-unit'), (x[1], sub(a, 'unit'), 'unit of a'), (x[3], sub(b, 'unit'), 'unit of b')):
                C.compare('generate:Calc:' + what, got, want, FIN, what=what)
            for got, op, what in ((x[2], a, 'value of a'), (x[4], b, 'value of b')):
                if got.op == 'idx' and got.a[0] is idx(q, r):
                    id_obl(C, E, 'generate:Calc:' + what, got.a[1], ids, sub(op, 'id'), what)
                else:
                    C.decide('generate:Calc:' + what, False, FIN, show(got, 5), decidable=got.op == 'idx' and got.a[0].op == 'idx' and got.a[0].a[0] is q and known(got.a[0].a[1]))
    if 'Convert' in have:
        convert(C, G, ids, sub)
    if 'Merge' in have:
        merge(C, G, ids)
    if 'Meta' in have:
        meta(C, G)
    # unit mapping
    f = [g for g in C.P.fns.values() if g['path'].endswith('::from') and PU in g['path'] and GU in g['path']]
    return C.finish(min_ok=60)


def F_array(C, E, n):
    """the array named n while generating"""
    for x in leafset(E.ret):
        if variant_of(x) == 'Ok' and x.a[4][0].op == 'agg':
            g = x.a[4][0]
            return dict(zip(g.a[3], g.a[4])).get(n)
    return None


def converted(C, E, key, w, fr, to, row, ids, sub):
    f = fallible(w)
    if f is None or not f.a[0].endswith('try_convert'):
        C.decide(key + ':value', False, FIN, 'the value is converted: %s' % show(w, 5), decidable=w.op == 'idx' and w.a[0] is row)
        return
    x = f.a[2]
    C.compare(key + ':from-unit', x[0], sub(fr, 'unit'), FIN, what='the unit converted from')
    C.compare(key + ':to-unit', x[1], sub(to, 'unit'), FIN, what='the unit converted to')
    got = x[2]
    if got.op == 'idx' and got.a[0] is row:
        id_obl(C, E, key + ':operand', got.a[1], ids, sub(fr, 'id'), 'the converted metric')
    else:
        C.decide(key + ':operand', False, FIN, 'the metric of the same edge is converted: %s' % show(got, 5), decidable=got.op == 'idx' and got.a[0].op == 'idx' and got.a[0].a[0] is row.a[0] and known(got.a[0].a[1]))


def convert(C, G, ids, sub):
    E = G.E
    v = 'Convert'
    fr, to = G.get(v, 'from'), G.get(v, 'to')
    rs = rows(C, G, v)
    if rs is None or not rs:
        C.undec('generate:Convert:values', FIN)
        rs = []
    for kind, w, i, c, qr in rs:
        if kind != 'store':
            C.decide('generate:Convert:values', False, FIN, 'the values are replaced (%s)' % kind, decidable=kind in ('same', 'push'))
            continue
        q, r = qr
        all_rows(C, G, 'generate:Convert:all', q, r)
        id_obl(C, E, 'generate:Convert:position', i, ids, sub(fr, 'id'), 'the replaced metric')
        converted(C, E, 'generate:Convert', w, fr, to, idx(q, r), ids, sub)
    for path, kind in ((('cfg', 'edges', 'metrics', 'ids'), 'id'), (('cfg', 'edges', 'metrics', 'units'), 'unit')):
        p, ls = G.next(path, v)
        key = 'generate:Convert:' + kind
        if not ls:
            C.undec(key, FIN)
        for c, x in ls:
            if x.op == 'store' and x.a[0] is p:
                id_obl(C, E, key + ':position', x.a[1], ids, sub(fr, 'id'), 'the replaced ' + kind)
                if kind == 'id':
                    C.compare(key, x.a[2], sub(to, 'id'), FIN, what='the new id')
                else:
                    same_unit(C, E, key, restrict(x.a[2], c), sub(to, 'unit'), c)
            else:
                C.decide(key, False, FIN, 'the %s is replaced: %s' % (kind, show(x, 4)), decidable=x is p or x.op == 'push')
    p, ls = G.next(('cfg', 'edges', 'categories'), v)
    for c, x in ls:
        key = 'generate:Convert:category'
        if x is p:
            C.decide(key, False, FIN, 'the category is replaced')
            continue
        if x.op != 'phi' or E.phi_ops[x][0] is not p:
            C.undec(key, FIN, show(x, 4))
            continue
        q, n = x, E.phi_ops[x][1]
        bpq = E.back_pc.get(loopkey(q), TRUE)
        hit = [(cc, y) for cc, y in leaves(n, bpq) if y.op == 'store' and y.a[0] is q]
        for cc, y in leaves(n, bpq):
            if y is q and len(hit) == 1:
                eqs = [a for a in atoms_of(hit[0][0]) if a.op in ('eq', 'is', 'more') and contains(a, lambda t: t is idx(q, hit[0][1].a[1]) or t is hit[0][1].a[1]) and implies(hit[0][0], _atom(a)) and not (a.op == 'eq' and not contains(a, lambda t: t is sub(fr, 'id')))]
                left = AND(cc, E.is_(idx(q, hit[0][1].a[1]), 'osmgraphing::configs::parsing::edges::Category', 'Metric'), *[_atom(a) for a in eqs])
                ex = [a for a in atoms_of(left) if contains(a, lambda t: t is idx(q, hit[0][1].a[1])) and a not in eqs]
                C.decide(key + ':always', left is FALSE, FIN, 'the category with the id to convert is always replaced%s' % ('' if left is FALSE else ', but only if ' + ', '.join(show(a, 5) for a in ex)), decidable=bool(eqs) and bool(ex))
            if y is q:
                continue
            if y.op != 'store' or y.a[0] is not q or y.a[2].op != 'with':
                C.undec(key, FIN, show(y, 4))
                continue
            r = y.a[1]
            C.decide(key + ':which', any(a.op == 'eq' and contains(a, lambda t: t is sub(fr, 'id')) and contains(a, lambda t: t is idx(q, r)) and implies(cc, a) for a in atoms_of(cc)), FIN, 'the category with the id to convert is replaced', decidable=all(a.op in ('eq', 'is', 'more') for a in atoms_of(cc)))
            d = {k[2] if k[0] == 'vf' else k[1]: w for k, w in y.a[2].a[1]}
            if 'id' in d:
                C.compare(key + ':id', d['id'], sub(to, 'id'), FIN, what='the id of the category')
            else:
                C.viol(key + ':id', FIN, 'the id of the category is not replaced')
            if 'unit' in d:
                same_unit(C, E, key + ':unit', restrict(d['unit'], cc), sub(to, 'unit'), cc)
            else:
                C.viol(key + ':unit', FIN, 'the unit of the category is not replaced')


def merge(C, G, ids):
    E = G.E
    v = 'Merge'
    for path in (('cfg', 'edges', 'metrics', 'ids'), ('cfg', 'edges', 'metrics', 'units'), ('cfg', 'edges', 'categories')):
        p, ls = G.next(path, v)
        for c, x in ls:
            C.decide('generate:Merge:config', x is p, FIN, 'merging keeps the configuration', decidable=x.op in ('push', 'store'))
    p, ls = G.next(('metrics',), v)
    key = 'generate:Merge'
    for c, x in ls:
        todo, seen = [x], set()
        stores, skips = [], []
        while todo:
            y = todo.pop()
            if y in seen or y is p:
                continue
            seen.add(y)
            if y.op == 'phi' and y in E.phi_ops:
                todo.append(E.phi_ops[y][0])
                for cc, z in leaves(E.phi_ops[y][1], E.back_pc.get(loopkey(y), TRUE)):
                    if z.op == 'store':
                        stores.append((cc, z, y))
                    else:
                        todo.append(z)
                        if z is y:
                            skips.append((cc, y))
            else:
                C.undec(key, FIN, show(y, 4))
                return
        if not stores:
            C.decide(key + ':values', False, FIN, 'values of the file are stored')
        for cc, z, q in stores:
            e, w = z.a[1], z.a[2]
            if not (z.a[0] is q and w.op == 'store' and w.a[0] is idx(q, e)):
                C.undec(key, FIN, show(z, 5))
                continue
            # value: parameter at the position of the metric's column
            val = w.a[2]
            if not (val.op == 'vfld' and val.a[1] == 'Ok' and val.a[0].op == 'call' and val.a[0].a[0] == 'parse'):
                C.undec(key + ':value', FIN, show(val, 4))
                continue
            prm = val.a[0].a[2][0]
            pp = position_of(E, w.a[1], ids, UNDEF)
            col = None
            if pp is not None:
                o = pp[1]
                o2 = o.a[0] if o.op == 'vfld' else o
                col = o2.a[1] if o2.op == 'idx' else None
                C.decide(key + ':id', o.op == 'vfld' and o2.op == 'idx' and o2.a[0] is G.get(v, 'edges_info'), FIN, 'the metric is looked up by the id of the column: %s' % show(o, 4), decidable=False)
            if col is not None and prm.op == 'idx':
                C.decide(key + ':column', prm.a[1] is col, FIN, 'the value is taken from column %s, its metric from %s' % (show(prm.a[1], 3), show(col, 3)), decidable=known(prm.a[1], ('phi',)))
                for sc, sq in skips:
                    if sq is q:
                        left = AND(sc, E.is_(o2, GE + 'merge::Category', 'Id'))
                        for a in atoms_of(left):
                            if a.op == 'eq' and contains(a, lambda t: t is o) and contains(a, lambda t: t is G.get(v, 'edge_id')):
                                left = AND(left, NOT(a))
                        C.decide(key + ':every', left is FALSE, FIN, 'the value of every column of a metric is stored, but not if %s' % show(left, 5), decidable=all(a.op in ('eq', 'is', 'more', 'flt', 'fle', 'neg', 'zero', 'feq', 'any', 'in') or known(a) for a in atoms_of(left) if contains(a, lambda t: t is col)))
            elif col is not None:
                C.undec(key + ':column', FIN, show(prm, 4))
            # edge: looked up by the id in the id column of the same line
            es = undrop(e)
            es = es.a[0] if es.op == 'fld' and es.a[2] == '0' else es
            pr = [t for t in subterms(e) if t.op == 'call' and t.a[0] == 'parse']
            line = prm.a[0] if prm.op == 'idx' else None
            mp = G.m.get(('edge_ids_to_idx_map',))
            d = es.a[0] if es.op == 'fld' and es.a[2] in ('0', '1') else es
            if d.op == 'fld' and d.a[2] == '1':
                d = d.a[0]
            if d.op == 'idx':
                C.decide(key + ':edge-map', d.a[0] is mp, FIN, 'the edge is looked up among the ids: %s' % show(d.a[0], 4), decidable=False)
            else:
                C.decide(key + ':edge-map', False, FIN, 'the edge is looked up by its id, but it is %s' % show(es, 4), decidable=es.op == 'vfld' and es.a[0].op == 'call' and es.a[0].a[0] == 'parse')
            if len(pr) != 1 or pr[0].a[2][0].op != 'idx' or line is None:
                C.undec(key + ':edge', FIN, show(e, 4))
                continue
            C.decide(key + ':edge-line', pr[0].a[2][0].a[0] is line, FIN, 'edge and values come from the same line', decidable=False)
            ec = pr[0].a[2][0].a[1]
            info, want = idx(G.get(v, 'edges_info'), ec), G.get(v, 'edge_id')
            eqs = [a for a in atoms_of(cc) if a.op == 'eq' and contains(a, lambda t: t is info) and contains(a, lambda t: t is want)]
            C.decide(key + ':edge', any(implies(cc, a) for a in eqs), FIN, 'the edge is given by the column of the edge-id: %s' % show(pr[0].a[2][0], 4), decidable=known(ec) and ec.op != 'rng' or any(implies(cc, NOT(a)) for a in eqs))


def meta(C, G):
    E = G.E
    v = 'Meta'
    info = G.get(v, 'info')
    for path in (('metrics',), ('cfg', 'edges', 'metrics', 'ids'), ('cfg', 'edges', 'metrics', 'units')):
        p, ls = G.next(path, v)
        for c, x in ls:
            C.decide('generate:Meta:' + path[-1], x is p, FIN, 'generating meta-information keeps the metrics', decidable=x.op in ('push', 'store'))
    p, ls = G.next(('cfg', 'edges', 'categories'), v)
    for m in variants(C, MINFO):
        ic = E.is_(info, MINFO, m)
        if AND(G.care(v), ic) is FALSE:
            continue
        for c, x in ls:
            c2 = AND(c, ic)
            if c2 is FALSE:
                continue
            key = 'generate:Meta:category:' + m
            if x.op == 'push' and x.a[0] is p and x.a[1].op == 'agg':
                d = dict(zip(x.a[1].a[3], x.a[1].a[4]))
                i = restrict(d.get('info'), c2) if d.get('info') is not None else None
                C.decide(key, x.a[1].a[2] == 'Meta' and i is not None and i.op == 'agg' and i.a[2] == m, FIN, 'meta-information %s becomes %s' % (m, show(i, 3) if i is not None else '-'), decidable=i is not None and i.op == 'agg')
                C.compare(key + ':id', d.get('id'), G.get(v, 'id'), FIN, what='the id of the generated meta-information')
            else:
                C.decide(key, False, FIN, 'the category is added: %s' % show(x, 3), decidable=x is p)
    if 'EdgeId' in variants(C, MINFO):
        ic = E.is_(info, MINFO, 'EdgeId')
        for path, what in ((('edge_ids',), 'ids'), (('edge_ids_to_idx_map',), 'mapping')):
            p, ls = G.next(path, v, ic)
            for c, x in ls:
                key = 'generate:EdgeId:' + what
                if x.op != 'collect':
                    C.decide(key, False, FIN, 'the %s of edges are generated: %s' % (what, show(x, 3)), decidable=x is p)
                    continue
                r = x.a[0]
                y = x.a[2]
                if what == 'ids':
                    y = y.a[4][0] if variant_of(y) == 'Some' else y
                    C.decide(key, y is r and x.a[1] is TRUE, FIN, 'the generated id of an edge is its index: %s' % show(y, 4), decidable=known(y, ('phi',)))
                elif y.op == 'agg' and len(y.a[4]) == 2:
                    C.decide(key, y.a[4][0] is r and undrop(y.a[4][1]) is r and x.a[1] is TRUE, FIN, 'the generated id maps to the index: %s' % show(y, 4), decidable=known(y, ('phi',)))
                n = r.a[2]
                C.decide(key + ':all', n.op == 'len' and n.a[0] is F_array(C, E, 'fwd_dsts'), FIN, 'every edge gets an id: %s' % show(n, 3), decidable=known(n, ('phi',)))




# ------------------------------------------------------------------ P17: unique ids
def exists(c, a):
    return OR(restrict(c, a), restrict(c, NOT(a)))


def cond_where(v, pred):
    """condition under which a conditional value is one satisfying the predicate"""
    memo = {}

    def go(x):
        if x.id not in memo:
            memo[x.id] = ITE(x.a[0], go(x.a[1]), go(x.a[2])) if x.op == 'ite' else (TRUE if pred(x) else FALSE)
        return memo[x.id]
    return go(v)


def id_terms(adt, el):
    return [(v['name'], mk('vfld', el, v['name'], 'id')) for v in (program().adts.get(adt) or {'variants': []})['variants'] if any(f[0] == 'id' for f in v['fields'])]


def pairs(E, adt, is_seq, pred=lambda a: True):
    """{(p, q): seq} of the positions of compared ids of one sequence"""
    out = {}
    seen = set()
    for c in E.back_pc.values():
        for a in atoms_of(c):
            if a.op != 'eq' or a.id in seen:
                continue
            seen.add(a.id)
            x, y = a.a
            if all(z.op == 'vfld' and z.a[2] == 'id' and z.a[0].op == 'idx' and is_seq(z.a[0].a[0]) for z in (x, y)) and x.a[0].a[0] is y.a[0].a[0]:
                ps = tuple(sorted({x.a[0].a[1], y.a[0].a[1]}, key=lambda t: len(subterms_l(t))))
                if len(ps) == 2:
                    out[ps] = x.a[0].a[0]
    return out


def subterms_l(t):
    return list(subterms(t))


def distinct(C, key, E, adt, is_seq, where, okc):
    """every pair of categories with ids has different ids if the function succeeds"""
    ps = pairs(E, adt, is_seq)
    if not ps:
        return False
    for (p, q), seq in ps.items():
        d = isub(q, p)
        rs = [t for t, n in d.a[1] if t.op == 'rng'] if d.op == 'lin' else []
        if p.op != 'rng' or len(rs) != 1 or cint(isub(d, rs[0])) != 1:
            C.decide(key + ':pairs', False, where, 'all pairs of categories are compared: positions %s and %s' % (show(p, 4), show(q, 4)), decidable=p.op == 'rng' and len(rs) == 1 and cint(isub(d, rs[0])) is not None)
            continue
        r = rs[0]
        n, m = p.a[2], r.a[2]
        ln = mk('len', seq)
        C.decide(key + ':first', n in (ln, isub(ln, I(1))), where, 'every category is compared: first of pair below %s' % show(n, 4), decidable=known(n, ('phi',)))
        C.decide(key + ':second', m is isub(isub(ln, p), I(1)) or m is isub(ln, iadd(p, I(1))), where, 'with every later one: %s more' % show(m, 4), decidable=known(m, ('phi',)))
        bp = E.back_pc.get(loopkey(r), FALSE)
        bo = E.back_pc.get(loopkey(p), FALSE)
        for u, iu in id_terms(adt, idx(seq, p)):
            for v, iv in id_terms(adt, idx(seq, q)):
                k = '%s:%s-%s' % (key, u, v)
                care = AND(AND(bp, E.is_(idx(seq, p), adt, u)), E.is_(idx(seq, q), adt, v))
                if care is FALSE:
                    C.undec(k, where, 'never compared')
                    continue
                a = [x for x in atoms_of(bp) if x.op == 'eq' and set(x.a) == {iu, iv}]
                if not a:
                    C.decide(k, False, where, 'the ids of two categories are compared', decidable=True)
                    continue
                C.decide(k, implies(care, NOT(a[0])), where, 'equal ids of two categories are an error')
        # the comparison is reached whenever the function succeeds
        for what, b, rr in (('reached', bo, (p,)),):
            e = b
            for a in atoms_of(b):
                if any(contains(a, lambda t: t is z) for z in (p, r)) or a.op == 'phi':
                    e = exists(e, a)
            done = okc
            for a in atoms_of(okc):
                if a.op == 'more':
                    done = restrict(done, NOT(a))
            left = AND(done, NOT(e))
            C.decide(key + ':' + what, left is FALSE, where, 'ids are compared on every successful run, but not if %s' % show(left, 5), decidable=all(known(a) or a in atoms_of(okc) for a in atoms_of(e)))
    return True


def p17(pid, tier):
    C = Check(pid, tier, 'wherever categories of edges are read or generated, the loops comparing ids cover all pairs, every continuing iteration implies that the ids differ (for each pair of kinds having ids), and no successful return bypasses them; the mapping of raw edge-ids is sorted and deduplicated by the id and a shorter result is an error')
    # parsing
    f = [g for g in C.P.fns.values() if g['path'].endswith('::try_from') and PE + 'Config' in g['path']]
    PP = PE + 'proto::Category' if PE + 'proto::Category' in C.P.adts else None
    cands = [a for a in C.P.adts if a.startswith(PE) and a.split('::')[-1] in ('ProtoCategory', 'Category') and a != PCAT]
    if len(f) == 1:
        E = C.run(f[0], key='tf')
        okc = cond_where(E.ret, lambda x: variant_of(x) == 'Ok' or variant_of(x) is None)
        done = False
        for adt in cands:
            done |= distinct(C, 'parse:distinct', E, adt, lambda s: s.op == 'fld' and s.a[2] == 'categories', f[0]['path'], okc)
        if not done:
            ids = any(a.op == 'eq' for c in E.back_pc.values() for a in atoms_of(c))
            C.decide('parse:distinct', False, f[0]['path'], 'duplicate ids of the configuration are an error', decidable=not ids and not any(x.op in ('any', 'call', 'all') for x in subterms(E.ret)))
        configured(C, E, f[0]['path'], cands)
    else:
        C.undec('anchor:try_from', PE, '%d functions' % len(f))
    # generating
    G = Gen(C)
    if not G.ok:
        return C.finish()
    E = G.E
    okc = cond_where(E.ret, lambda x: variant_of(x) == 'Ok')
    okc = AND(okc, E.final.pc)
    seq = G.m.get(('cfg', 'edges', 'categories'))
    for s in [x for x in E.phi_ops if x.op == 'phi']:
        pass
    if not distinct(C, 'generated:distinct', E, PCAT, lambda s: s is seq, FIN, AND(okc, E.is_(gen_opt(E, G), OPTION, 'Some'))):
        C.decide('generated:distinct', False, FIN, 'generated ids being duplicates of each other are an error', decidable=not later_tests(E, G, seq))
    existing(C, G)
    raw_ids(C, G)
    return C.finish(min_ok=20)


def raw_ids(C, G):
    """raw edge-ids are sorted and unique"""
    E = G.E
    p = G.m.get(('edge_ids_to_idx_map',))
    v = E.phi_ops[p][0] if p is not None else None
    if v is None:
        C.undec('raw', FIN)
        return
    okc = cond_where(E.ret, lambda x: variant_of(x) == 'Ok')
    if E.final is not None:
        okc = AND(okc, E.final.pc)
    for c, x in leaves(v, TRUE):
        base, ops = x, []
        while base.op in ('sorted', 'deduped'):
            ops.append(base)
            base = base.a[0]
        empty = [a for a in atoms_of(c) if a.op == 'zero' and a.a[0] is mk('len', base)]
        if not ops:
            C.decide('raw:sorted', any(implies(c, a) for a in empty), FIN, 'the mapping of edge-ids is sorted unless it is empty', decidable=base.op == 'phi' and all(a.op != 'call' for a in atoms_of(c)))
            continue
        srt = [o for o in ops if o.op == 'sorted']
        for o in ops:
            k = o.a[2]
            r = o.a[3]
            el = idx(o.a[0], r) if isinstance(r, T) else None
            first = el is not None and (k is fld(el, '', '0') or k.op == 'fld' and k.a[2] == '0' and k.a[0] is el or (k is el and o.op == 'sorted') or k.op == 'agg' and k.a[4] and k.a[4][0].op == 'fld' and k.a[4][0].a[0] is el and k.a[4][0].a[2] == '0')
            if o.op == 'sorted':
                C.decide('raw:key', first, FIN, 'sorted by the id: %s' % show(k, 4), decidable=isinstance(k, T) and known(k, ('phi', 'sorted', 'deduped')))
        C.decide('raw:sorted', bool(srt), FIN, 'the mapping of edge-ids is sorted')
        # uniqueness
        nz = AND(okc, c)
        for a in atoms_of(nz):
            if a.op == 'more':
                nz = restrict(nz, NOT(a))
        ded = [o for o in ops if o.op == 'deduped']
        bykey = [o for o in ded if isinstance(o.a[2], T) and o.a[2].op == 'fld' and o.a[2].a[2] == '0' and o.a[2].a[0].op == 'idx']
        same = any(implies(nz, izero(isub(mk('len', base), mk('len', o)))) for o in bykey)
        adj = False
        for kk, bp in E.back_pc.items():
            for a in atoms_of(bp):
                if a.op == 'zero' and a.a[0].op == 'lin' and len(a.a[0].a[1]) == 2 and a.a[0].a[0] == 0 and {q for t, q in a.a[0].a[1]} == {1, -1}:
                    ts = [t for t, q in a.a[0].a[1]]
                    if all(t.op == 'fld' and t.a[2] == '0' and t.a[0].op == 'idx' and t.a[0].a[0] is x for t in ts) and abs(cint(isub(ts[0].a[0].a[1], ts[1].a[0].a[1])) or 0) == 1:
                        r = [t.a[0].a[1] for t in ts if t.a[0].a[1].op == 'rng']
                        if r and implies(bp, NOT(a)) and isub(mk('len', x), r[0].a[2]) is I(1):
                            adj = True
        odd = [a for kk, bp in list(E.back_pc.items()) + [(0, okc)] for a in atoms_of(bp) if a.op in ('any', 'all', 'call') and contains(a, lambda t: t is base)]
        C.decide('raw:unique', same or (adj and not bykey), FIN, 'edges of the same id are an error', decidable=not odd)


OPTION = 'core::option::Option'


def gen_opt(E, G):
    """the optional configuration of generating"""
    for x in subterms(G.cat):
        if x.op == 'vfld' and x.a[1] == 'Some':
            return x.a[0]
    return UNDEF


def later_tests(E, G, seq):
    return any(contains(a, lambda t: t is seq) for x in leafset(E.ret) for a in ()) or any(a.op in ('any', 'all', 'call', 'eq') and contains(a, lambda t: t is seq) and not contains(a, lambda t: t.op == 'rng' and loopkey(t) == G.loop) for c in E.back_pc.values() for a in atoms_of(c)) or any(a.op in ('any', 'all', 'call') and contains(a, lambda t: t is seq) and not contains(a, lambda t: t.op == 'rng' and loopkey(t) == G.loop) for a in atoms_of(cond_where(E.ret, lambda x: variant_of(x) == 'Ok')))


def configured(C, E, where, cands):
    """categories, units and ids of the configuration are taken over in order"""
    g = None
    for x in leafset(E.ret):
        if variant_of(x) == 'Ok' and x.a[4][0].op == 'agg':
            g = x.a[4][0]
    if g is None:
        C.undec('parse:config', where)
        return
    top = dict(zip(g.a[3], g.a[4]))
    cats = top.get('categories')
    met = top.get('metrics')
    if cats is None or met is None or met.op != 'agg':
        C.undec('parse:config', where, show(g, 4))
        return
    md = dict(zip(met.a[3], met.a[4]))
    gs = {n: grown(E, x) if x is not None else None for n, x in (('categories', cats), ('units', md.get('units')), ('ids', md.get('ids')))}
    pos = None
    for n, gr in gs.items():
        if gr is None or not is_empty(gr[0]):
            x = {'categories': cats}.get(n, md.get(n))
            ins = [t for z in ((E.phi_ops.get(x) or ()) if x is not None else ()) if z is not None for t in subterms(z) if t.op == 'mut' and any(u.op == 'call' and u.a[0].endswith('::insert') and any(cint(w) == 0 for w in u.a[2]) for u in subterms(t))]
            C.decide('parse:' + n, False, where, 'the %s keep the order of the categories' % n, decidable=bool(ins))
            return
    subj = {x for n, gr in gs.items() for ks, c, vs in gr[1] for adt in cands for x in subjects([c] + vs, adt)}
    subj = {x for x in subj if x.op == 'idx' and x.a[1].op == 'rng' and all(loopkey(x.a[1]) in ks for gr in gs.values() for ks, c, vs in gr[1])}
    if len(subj) != 1:
        C.undec('parse:config', where, '%d subjects' % len(subj))
        return
    el = subj.pop()
    adt = [a for a in cands if subjects([c for gr in gs.values() for ks, c, vs in gr[1]] + [v for gr in gs.values() for ks, c, vs in gr[1] for v in vs], a)][0]
    C.decide('parse:all', el.a[1].a[2].op == 'len' and el.a[1].a[2].a[0] is el.a[0], where, 'every category is taken over', decidable=known(el.a[1].a[2]))
    for v in variants(C, adt):
        iv = E.is_(el, adt, v)
        for n, gr in gs.items():
            want = 1 if n == 'categories' or v == 'Metric' else 0
            got = [(AND(c, iv), vs) for ks, c, vs in gr[1] if AND(c, iv) is not FALSE]
            full = FALSE
            for c, vs in got:
                full = OR(full, c)
            bp = AND(E.back_pc.get(loopkey(el.a[1]), TRUE), iv)
            k = 'parse:%s:%s' % (n, v)
            if want == 0:
                C.decide(k, not got, where, '%s has no %s' % (v, n), decidable=True)
                continue
            C.decide(k, implies(bp, full) and all(len(vs) == 1 for c, vs in got), where, 'a category %s adds one to %s' % (v, n), decidable=not got or all(a.op == 'is' or known(a, ('phi',)) for a in atoms_of(AND(bp, NOT(full)))))
            for c, vs in got:
                for y in vs:
                    y = restrict(y, c)
                    if n == 'ids':
                        C.compare(k + ':value', y, mk('vfld', el, v, 'id'), where, what='the id of a metric')
                    elif n == 'units':
                        unit_same(C, E, k + ':value', y, mk('vfld', el, v, 'unit'), c, where)
                    elif y.op == 'agg':
                        C.decide(k + ':kind', y.a[2] == v, where, 'category %s becomes %s' % (v, y.a[2]))
                        d = dict(zip(y.a[3], y.a[4]))
                        if 'id' in d:
                            C.compare(k + ':id', d['id'], mk('vfld', el, v, 'id'), where, what='the id of a category')
                        for z in ('unit', 'info'):
                            if z in d:
                                unit_same(C, E, k + ':' + z, d[z], mk('vfld', el, v, z), c, where)


def unit_same(C, E, key, got, src, care, where):
    """an enumeration is mapped to the variant of the same name"""
    adts = {a.a[1] for a in atoms_of(got) if a.op == 'is' and a.a[0] is src}
    if got is src:
        C.ok(key, where)
        return
    if len(adts) != 1:
        C.undec(key, where, show(got, 4))
        return
    adt = adts.pop()
    for u in variants(C, adt):
        c = AND(care, E.is_(src, adt, u))
        if c is FALSE:
            continue
        r = restrict(got, c)
        C.decide(key + ':' + u, variant_of(r) == u, where, '%s becomes %s' % (u, show(r, 3)), decidable=variant_of(r) is not None)


def existing(C, G):
    """an id that exists before generating is not generated (edges), nodes: not added"""
    E = G.E
    for cadt, padt, seqname, what in ((CAT, PCAT, 'edges', 'edge'), (GN + 'Category', 'osmgraphing::configs::parsing::nodes::Category', 'nodes', 'node')):
        hit = 0
        for k, bp in E.back_pc.items():
            for a in atoms_of(bp):
                if a.op != 'any':
                    continue
                r, c = a.a[0], a.a[1]
                subj = [x for x in subjects([c], padt) if x.op == 'idx' and contains(x.a[1], lambda t: t is r)]
                olds = [x for x in subj if cats_of(x.a[0], seqname)]
                news = {z.a[0] for b in atoms_of(c) if b.op == 'eq' for y in b.a for z in subterms(y) if z.op == 'vfld' and z.a[0].op == 'idx' and z.a[0].a[1].op == 'rng' and loopkey(z.a[0].a[1]) == k and z.a[0].a[1] is not r}
                if len(olds) != 1 or len(news) != 1:
                    continue
                hit += 1
                old, new = olds[0], news.pop()
                ln = mk('len', old.a[0])
                C.decide('generated:%s:all' % what, r.a[2] is ln and old.a[1] is r, FIN, 'the new id is compared with every existing one', decidable=known(r.a[2], ('phi',)))
                for v in variants(C, cadt):
                    nid = new_id(C, cadt, new, v)
                    if nid is None:
                        continue
                    care = AND(bp, E.is_(new, cadt, v))
                    if care is FALSE:
                        continue
                    C.decide('generated:%s:%s' % (what, v), implies(care, NOT(a)), FIN, 'an existing id is not generated again', decidable=True)
                    inner = restrict(c, E.is_(new, cadt, v))
                    for u, ou in id_terms(padt, old):
                        ii = restrict(inner, E.is_(old, padt, u))
                        good = ii.op == 'eq' and set(ii.a) == {ou, nid}
                        C.decide('generated:%s:%s-%s' % (what, v, u), good, FIN, 'the new id is compared with the id of the existing category: %s' % show(ii, 5), decidable=known(ii, ('phi',)))
        if not hit:
            C.decide('generated:%s' % what, False, FIN, 'a generated id is compared with the existing ones', decidable=not any(a.op in ('any', 'all', 'call', 'eq') and contains(a, lambda t: t.op == 'vfld' and t.a[2] == 'id' and t.a[0].op == 'idx' and cats_of(t.a[0].a[0], seqname)) for c in E.back_pc.values() for a in atoms_of(c)))


def cats_of(x, seqname):
    return path_of(x).endswith('%s.categories' % seqname) or x.op == 'phi' and isinstance(x.a[3], tuple) and any(isinstance(z, tuple) and z[1:2] == (seqname,) for z in x.a[3]) and any(isinstance(z, tuple) and z[1:2] == ('categories',) for z in x.a[3])


def path_of(t):
    r = []
    while t.op == 'fld':
        r.append(t.a[2])
        t = t.a[0]
    return '.'.join(r[::-1])


def new_id(C, cadt, x, v):
    """the id a generating category creates; None for those working in place"""
    fs = {f[0] for w in C.P.adts[cadt]['variants'] if w['name'] == v for f in w['fields']}
    CM = GE + 'metrics::Category'
    if v in ('Convert', 'Merge'):
        return None
    if 'id' in fs:
        return mk('vfld', x, v, 'id')
    for n in ('to', 'result'):
        if n in fs:
            return fld(mk('vfld', x, v, n), CM, 'id')
    return None


CHECKS = {'P16': p16, 'P17': p17}


# ------------------------------------------------------------------ P18: positive, normalised metrics
def is_const(t):
    return t.op == 'c' or t.op == 'const'


def near_zero(a):
    """the value an atom tests to be (nearly) zero; None if it is no such test"""
    if a.op not in ('fle', 'flt') or not is_const(a.a[1]):
        return None
    t = a.a[0]
    hit = False
    while True:
        if t.op == 'call' and t.a[0].split('::')[-1] in ('abs', 'round') and len(t.a[2]) == 1:
            hit |= t.a[0].endswith('abs')
            t = t.a[2][0]
        elif t.op in ('bin', 'fbin') and t.a[0] in ('Mul', 'Div', 'Sub'):
            x, y = t.a[1], t.a[2]
            if is_const(x) and t.a[0] == 'Mul':
                t = y
            elif is_const(y) and (t.a[0] != 'Sub' or fconst(y) == 0.0):
                t = x
            else:
                return t if hit else None
        else:
            return t if hit else None


def near_zeros(c):
    """[(condition, value)]: what c asks about values being (nearly) zero"""
    out = [(a, near_zero(a)) for a in atoms_of(c)]
    out = [x for x in out if x[1] is not None]
    up, lo = [], []
    for a in atoms_of(c):
        if a.op not in ('fle', 'flt'):
            continue
        for t, k, r in ((a.a[0], a.a[1], up), (a.a[1], a.a[0], lo)):
            # t <= k, or k <= t
            if is_const(k) and fconst(k) is not None and not is_const(t):
                v = near_zero(mk('fle', mk('call', 'abs', (), (t,)), F('1')))
                if v is not None:
                    r.append((a, v, fconst(k)))
    for a, v, k in up:
        for b, w, l in lo:
            if v is w and k > 0 > l and abs(k + l) <= 1e-9 * k:
                out.append((AND(a, b), v))
            elif v is w and l > 0 > k and abs(k + l) <= 1e-9 * l:
                out.append((AND(NOT(a), NOT(b)), v))
    return out


def fconst(t):
    try:
        return float(t.a[1])
    except Exception:
        return None


def metrics_of_ok(C, E):
    for x in leafset(E.ret):
        if variant_of(x) == 'Ok' and x.a[4][0].op == 'agg':
            g = x.a[4][0]
            return dict(zip(g.a[3], g.a[4]))
    return {}


def p18(pid, tier):
    C = Check(pid, tier, 'metrics of edges read from files are at least the accuracy and no NaN or loading fails; means are the sum over all edges of the final metrics divided by the number of edges, per column; no edges or a mean near zero is an error; every metric is divided by the mean of its own column, results near zero become the accuracy; the means are remembered iff metrics are normalised')
    G = Gen(C)
    if not G.ok:
        return C.finish()
    E = G.E
    d = metrics_of_ok(C, E)
    okc = cond_where(E.ret, lambda x: variant_of(x) == 'Ok')
    okc = AND(okc, E.final.pc) if E.final is not None else okc
    norm = [a for a in atoms_of(okc) + [a for c, x in leaves(d.get('means', UNDEF), TRUE) for a in atoms_of(c)] if a.op == 'fld' and a.a[2] == 'are_normalized']
    if not norm or 'means' not in d:
        C.undec('means', FIN, 'no such condition')
        return C.finish()
    norm = norm[0]
    done = okc
    for a in atoms_of(okc):
        if a.op == 'more':
            done = restrict(done, NOT(a))
    read_metrics(C, E, G, done)
    q = None
    for c, m in leaves(d['means'], TRUE):
        want = 'Some' if implies(c, norm) else 'None' if implies(c, NOT(norm)) else None
        if want is None:
            C.decide('means:remembered', False, FIN, 'the means are known exactly if the metrics are normalised: %s under %s' % (show(m, 3), show(c, 4)), decidable=variant_of(m) is not None)
            continue
        C.decide('means:remembered:' + want, variant_of(m) == want, FIN, 'means are %s' % show(m, 4), decidable=variant_of(m) is not None)
        if variant_of(m) == 'Some':
            q = m.a[4][0]
    if q is None:
        return C.finish()
    corrections(C, E)
    nrows = {mk('len', d[k]) for k in ('fwd_dsts', 'bwd_dsts') if k in d}
    # the metrics that are normalised: initial value of the normalising loop
    fin = d.get('metrics')
    nphi = [x for x in leafset(fin) if x.op == 'phi' and any(implies(c, norm) for c, y in leaves(fin, TRUE) if y is x)]
    if len(nphi) != 1:
        C.decide('normalise', False, FIN, 'metrics are normalised', decidable=all(implies(c, NOT(norm)) or x in G.m.values() for c, x in leaves(fin, TRUE)))
        return C.finish()
    nphi = nphi[0]
    old = E.phi_ops[nphi][0]
    olds = {mk('len', x) for x in leafset(old)} | {mk('len', old)}

    def rows_ok(n):
        return n in nrows or n in olds or all(x in nrows | olds for x in alts(n))

    def mean_at(j):
        """the mean of a column"""
        e = E.elem(q, j) if hasattr(E, 'elem') else None
        return e

    # means = sums / n
    if q.op == 'collect':
        r, cond, w = q.a[0], q.a[1], q.a[2]
        C.decide('means:all', cond is TRUE, FIN, 'every column has a mean')
        if w.op == 'bin' and w.a[0] == 'Div' and w.a[1].op == 'idx':
            s, col = w.a[1].a
            C.decide('means:column', col is r, FIN, 'the mean of a column is made of its own sum: %s' % show(col, 3), decidable=known(col))
            n = w.a[2]
            while n.op == 'cast':
                n = n.a[1]
            C.decide('means:count', rows_ok(n), FIN, 'the sum is divided by the number of edges: %s' % show(n, 4), decidable=known(n, ('phi',)))
            sums(C, E, s, old, rows_ok)
        else:
            C.decide('means:value', False, FIN, 'a mean is the sum divided by the number of edges: %s' % show(w, 5), decidable=known(w, ('phi',)))
    else:
        C.undec('means:value', FIN, show(q, 4))
        return C.finish()
    mean = lambda j: rewrite(q.a[2], lambda x: j if x is q.a[0] else x)
    # errors
    c = AND(done, norm)
    nz = [a for a in atoms_of(c) if a.op == 'zero' and a.a[0] in nrows | olds]
    C.decide('means:no-edges', any(implies(c, NOT(a)) for a in nz), FIN, 'normalising without edges is an error', decidable=not any(a.op in ('call',) for a in atoms_of(c)))
    anys = [a for a in atoms_of(c) if a.op == 'any' and any(v is mean(a.a[0]) for x, v in near_zeros(a.a[1]))]
    good = [a for a in anys if implies(c, NOT(a)) and any(v is mean(a.a[0]) and implies(x, a.a[1]) for x, v in near_zeros(a.a[1]))]
    lp = []
    for k, bp in E.back_pc.items():
        for x, v in near_zeros(bp):
            if v.op == 'bin' and v.a[0] == 'Div' and v.a[1].op == 'idx' and v.a[1].a[1].op == 'rng' and v is mean(v.a[1].a[1]) and implies(bp, NOT(x)):
                lp.append(v.a[1].a[1])
    C.decide('means:zero', bool(good or lp), FIN, 'a mean near zero is an error', decidable=not any(a.op in ('call', 'any', 'all') and contains(a, lambda t: t is q.a[2].a[1].a[0]) for a in atoms_of(c) if a not in anys and not (a.op == 'all' and a.a[1].op in ('fle', 'flt'))) and not any(contains(a, lambda t: t is q.a[2].a[1].a[0]) for k, bp in E.back_pc.items() for a in atoms_of(bp) if a not in anys and a.op not in ('more', 'zero')))
    for a in good:
        n = a.a[0].a[2]
        C.decide('means:zero-all', n is mk('len', q) or n is q.a[0].a[2] or n in {mk('len', x) for x in leafset(q.a[2].a[1].a[0])}, FIN, 'every mean is checked: %s' % show(n, 4), decidable=known(n, ('phi',)))
    # normalising
    scaled(C, E, nphi, old, q, mean, rows_ok)
    return C.finish(min_ok=15)


def corrections(C, E):
    """metrics of an edge are replaced by a constant only if they are near zero"""
    for p, (i, n) in E.phi_ops.items():
        if n is None or i is None or not (i.op == 'fld' and i.a[2] == 'metrics'):
            continue
        for c, x in leaves(n, E.back_pc.get(loopkey(p), TRUE)):
            if x.op == 'store' and x.a[0] is p:
                j = x.a[1]
                cur = idx(p, j)
                for c, v in leaves(x.a[2], c):
                    if v is cur:
                        continue
                    near = [a for a, y in near_zeros(c) if y is cur]
                    C.decide('read:only-near-zero', any(implies(c, a) for a in near), FIN, 'a metric is corrected only if it is near zero, not if %s' % show(c, 5), decidable=all(known(a, ('phi',)) or a.op in ('flt', 'fle', 'more') for a in atoms_of(c)))
                    C.decide('read:correction', is_const(v) and (fconst(v) or 0) > 0, FIN, 'a metric near zero becomes %s' % show(v, 3), decidable=is_const(v) or known(v, ('phi',)))


def read_metrics(C, E, G, done):
    hit = 0
    src = set(leafset(G.E.phi_ops[G.m[('metrics',)]][0]))
    partial = []
    for k, bp in E.back_pc.items():
        vals = {}
        for a in atoms_of(bp):
            for t in subterms(a):
                if t.op == 'idx' and t.a[0].op == 'idx' and t.a[0].a[0] in src and t.a[1].op == 'rng' and t.a[0].a[1].op == 'rng':
                    vals.setdefault(t, []).append(a)
        for x, ats in vals.items():
            low = [a for a in ats if a.op in ('flt', 'fle') and a.a[0] is x and is_const(a.a[1])]
            low += [a for a in ats if a.op in ('flt', 'fle') and a.a[1] is x and is_const(a.a[0])]
            nan = [a for a in ats if a.op == 'call' and a.a[0].endswith('is_nan')]
            if not low:
                continue
            hit += 1
            # continuing implies: x >= bound, and x is comparable
            pos = False
            for a in low:
                if a.a[0] is x:  # x < bound
                    pos |= implies(bp, NOT(a)) and (fconst(a.a[1]) or 0) > 0
                    ordered = implies(bp, NOT(a))
                else:  # bound <= x
                    if implies(bp, a) and (fconst(a.a[0]) or 0) > 0:
                        pos = True
                        nan = nan or [None]
            C.decide('read:positive', pos, FIN, 'a metric below the accuracy is an error')
            C.decide('read:nan', any(n is None or implies(bp, NOT(n)) for n in nan), FIN, 'a metric being no number is an error')
            i, j = x.a[0].a[1], x.a[1]
            C.decide('read:all-rows', i.a[2] is mk('len', x.a[0].a[0]), FIN, 'the metrics of every edge are checked: %s' % show(i.a[2], 4), decidable=known(i.a[2], ('phi',)))
            C.decide('read:all-columns', j.a[2] is mk('len', x.a[0]), FIN, 'every metric of an edge is checked: %s' % show(j.a[2], 4), decidable=known(j.a[2], ('phi',)))
            bo = E.back_pc.get(loopkey(i), TRUE)
            e = bo
            for a in atoms_of(bo):
                if a.op == 'more' or contains(a, lambda t: t is i or t is j):
                    e = exists(e, a)
            left = AND(done, NOT(e))
            C.decide('read:reached', left is FALSE, FIN, 'metrics are checked on every successful run, but not if %s' % show(left, 5), decidable=all(known(a) or a in atoms_of(done) for a in atoms_of(e)))
    if not hit:
        C.decide('read:positive', False, FIN, 'metrics being zero, negative or no number are an error', decidable=not any(a.op in ('any', 'all', 'call') and any(contains(a, lambda t: t is s) for s in src) for a in atoms_of(done)))


def sums(C, E, s, old, rows_ok):
    """s: sums per column over all rows of the metrics"""
    if s.op != 'phi' or s not in E.phi_ops:
        C.undec('means:sum', FIN, show(s, 4))
        return
    i, n = E.phi_ops[s]
    z = i.op == 'repeat' and fconst(i.a[0]) == 0.0
    C.decide('means:sum-start', z, FIN, 'sums start at zero: %s' % show(i, 3), decidable=i.op == 'repeat' and is_const(i.a[0]))
    olds = set(leafset(old))
    for c, x in leaves(n, TRUE):
        if x.op == 'collect':
            r, cond, w = x.a
            for cc, y in leaves(w, c):
                ok = None
                if y.op == 'bin' and y.a[0] == 'Add':
                    ops = set(y.a[1:])
                    mine = idx(s, r)
                    rest = [t for t in y.a[1:3] if t is not mine]
                    ok = len(rest) == 1 and rest[0].op == 'idx' and rest[0].a[1] is r and rest[0].a[0].op == 'idx' and rest[0].a[0].a[0] in olds and rest[0].a[0].a[1].op == 'rng' and str(rest[0].a[0].a[1].a[1]) in str(s.a[1])
                    if ok:
                        row = rest[0].a[0].a[1]
                        C.decide('means:sum-all', rows_ok(row.a[2]), FIN, 'the metrics of every edge are summed: %s' % show(row.a[2], 4), decidable=known(row.a[2], ('phi',)))
                C.decide('means:sum', bool(ok), FIN, 'the metric of the same column is added: %s' % show(y, 6), decidable=known(y, ('phi',)))
        else:
            C.undec('means:sum', FIN, show(x, 4))


def scaled(C, E, nphi, old, q, mean, rows_ok):
    seen, todo = set(), [nphi]
    stores = []
    bases = set(leafset(old))
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p.op != 'phi' or p not in E.phi_ops:
            if p not in bases:
                C.undec('normalise', FIN, show(p, 4))
            continue
        i, n = E.phi_ops[p]
        bp = E.back_pc.get(loopkey(p), TRUE)
        for c, x in leaves(n, bp):
            if x.op == 'store':
                stores.append((p, c, x, bp))
            elif x is not p:
                todo.append(x)
            elif any(z.op == 'store' for z in leafset(n)):
                C.decide('normalise:every', False, FIN, 'a metric is skipped if %s' % show(c, 5), decidable=all(known(a, ('phi',)) for a in atoms_of(c)))
        todo += [x for x in leafset(i) if x not in bases]
    if not stores:
        C.decide('normalise', False, FIN, 'metrics are divided by their mean')
    for p, c, x, bp in stores:
        i, w = x.a[1], x.a[2]
        if w.op != 'store' or w.a[0] is not idx(p, i):
            C.undec('normalise:value', FIN, show(x, 5))
            continue
        j, v = w.a[1], w.a[2]
        m = mean(j)
        cur = idx(idx(p, i), j)
        want = mk('bin', 'Div', cur, m)
        for c, v in leaves(v, c):
            tests = near_zeros(c)
            if v.op == 'bin' and v.a[0] == 'Div':
                C.decide('normalise:value', v.a[1] is cur and v.a[2] is m, FIN, 'a metric is divided by the mean of its column: %s' % show(v, 6), decidable=known(v, ('phi',)))
                near = [a for a, y in tests if y is v]
                C.decide('normalise:near-zero', any(implies(c, NOT(a)) for a in near), FIN, 'a normalised metric near zero is corrected', decidable=not any(a.op == 'call' for a in atoms_of(c)))
            elif is_const(v):
                C.decide('normalise:corrected', (fconst(v) or 0) > 0, FIN, 'a metric near zero becomes %s' % show(v, 2))
                C.decide('normalise:only-near-zero', any(implies(c, a) and (y.op == 'bin' and y.a[0] == 'Div' and y.a[1] is cur) for a, y in tests), FIN, 'only metrics near zero are corrected', decidable=all(known(a, ('phi',)) for a in atoms_of(c)))
            else:
                C.decide('normalise:value', False, FIN, 'a metric is divided by the mean of its column: %s' % show(v, 6), decidable=known(v, ('phi',)))
        smean = {mk('len', q)} | {mk('len', t) for t in leafset(q.a[2].a[1].a[0])}

        def cols_ok(n):
            if n.op == 'minlen':
                return all(cols_ok(t) for t in n.a)
            return n in smean or n.op == 'len' and n.a[0].op == 'idx' and n.a[0].a[1] is i
        for r, ok, what in ((i, rows_ok(i.a[2]) if i.op == 'rng' else None, 'edge'), (j, j.op == 'rng' and cols_ok(j.a[2]), 'column')):
            if r.op != 'rng':
                C.decide('normalise:all-%ss' % what, False, FIN, 'positions %s' % show(r, 4), decidable=known(r, ('phi',)))
            else:
                C.decide('normalise:all-%ss' % what, bool(ok) or r.a[2].op == 'len' and (r.a[2].a[0] is p or r.a[2].a[0] is nphi), FIN, 'every %s is normalised: %s' % (what, show(r.a[2], 4)), decidable=known(r.a[2], ('phi',)))


CHECKS['P18'] = p18
