"""Rules about the graph: accessors, per-edge arrays, offsets, shortcuts, metrics, ids (P13-P18) and its immutability (P29)."""
from ..lib import *
from ..terms import _atom
from .io_read import more, lt, only_err, isres, failing

GR = 'osmgraphing::network::graph::'
GT = GR + 'Graph'
FIN = GR + 'building::GraphBuilder::finalize'
GB = GR + 'building::GraphBuilder'
EI, NI, MI = GR + 'indexing::EdgeIdx', GR + 'indexing::NodeIdx', GR + 'indexing::MetricIdx'
ARG0 = mk('arg', 0)


def gf(n):
    return fld(ARG0, GT, n)


def raw(v, adt):
    return fld(v, adt, '0')


def nt(adt, v):
    return mk('agg', 'adt', adt, adt.split('::')[-1], ('0',), (v,))


def via(C, acc, m, key=None):
    """method `m` of the accessor that the graph's method `acc` returns, in terms of the graph's own fields"""
    k = ('via', acc, m)
    if k in C.cache:
        return C.cache[k]
    E1 = C.run(GT + '::' + acc)
    f = C.fn(GR + m)
    if E1 is None or f is None:
        return None
    E = Engine(C.P, max_steps=60000)

    def pre(E, st):
        st.mem[('A', 0)] = ARG0
        st.mem[('A', 'acc')] = E1.ret
    a = {0: mk('ref', ('A', 'acc'), ()) if f['locals'][1].startswith('&') else E1.ret}
    try:
        E.run(f, args=a, pre=pre)
    except Budget:
        C.undec('budget:' + m)
        return None
    C.fns |= E.inlined
    C.sites += len(E.eff)
    C.cache[k] = (f, E)
    return f, E


def on(C, m, recv, mem):
    """method `m` applied to a value computed earlier"""
    f = C.fn(GR + m)
    if f is None:
        return None
    E = Engine(C.P, max_steps=60000)

    def pre(E, st):
        st.mem.update(mem)
        st.mem[('A', 'recv')] = recv
    E.run(f, args={0: mk('ref', ('A', 'recv'), ()) if f['locals'][1].startswith('&') else recv}, pre=pre)
    C.fns |= E.inlined
    return f, E


def deref(E, v):
    return E.norm(E.final, v)


def between(C, acc, x, r, n1):
    """an edge between two nodes is found iff there is one"""
    f, E = r
    key = acc + ':between'
    lo, hi = idx(gf(x + '_offsets'), n1), idx(gf(x + '_offsets'), iadd(n1, I(1)))
    out = list(leaves(deref(E, E.ret)))
    js = {t for c, v in out for t in subterms(v) if t.op in ('rng', 'first')} | {t for c, v in out for a in atoms_of(c) for t in subterms(a) if t.op == 'rng'}
    rs = {t.a[0] if t.op == 'first' else t for t in js}
    if len(rs) != 1:
        plain = all(known(v) and all(known(a) for a in atoms_of(c)) for c, v in out)
        C.decide(key, False, f['path'], 'the leaving edges are not searched one by one', decidable=plain and not rs)
        return
    j = rs.pop()
    e = idx(gf(x + '_to_fwd_map'), iadd(lo, j))
    d = idx(gf(x + '_dsts'), raw(e, EI))
    C.decide(key + ':all', j.a[2] is isub(hi, lo), f['path'], 'all leaving edges are searched: %s of them' % show(j.a[2], 6), decidable=known(j.a[2]))
    back = dict(E.back_pc)
    conds = [c for c, v in out] + list(back.values())
    inner = [a.a[1] for c in conds for a in atoms_of(c) if a.op == 'any' and a.a[0] is j]
    here = lambda a: a.op in ('eq', 'zero') and contains(a, lambda t: t is d) and contains(a, lambda t: t is mk('arg', 2))
    eqs = {a for c in conds + inner for a in atoms_of(c) if here(a)}
    sees = all(known(a) for c in conds + inner for a in atoms_of(c) if a.op not in ('any', 'more'))
    if len(eqs) != 1:
        C.decide(key, False, f['path'], 'edges are not compared with the node they should lead to', decidable=not eqs and sees)
        return
    eq = _atom(eqs.pop())
    m = _atom(mk('more', j))
    if inner:
        C.decide(key + ':match', all(i is eq for i in inner), f['path'], 'exactly an edge that leads to the node is found', decidable=sees)
    for c, v in out:
        v = rewrite(v, lambda t: j if t.op == 'first' and t.a[0] is j else t)
        if variant_of(v) == 'Some':
            if not inner:
                C.decide(key + ':match', implies(c, eq), f['path'], 'an edge is found only if it leads to the node', decidable=sees)
            h = v.a[4][0] if v.op == 'agg' else None
            k = dict(zip(h.a[3], h.a[4])).get('idx') if h is not None and h.op == 'agg' else None
            if k is None:
                C.undec(key + ':edge', f['path'], show(v, 4))
            else:
                C.decide(key + ':edge', raw(k, EI) is raw(e, EI), f['path'], 'the edge found is the one that leads to the node: %s' % show(k, 5), decidable=known(k))
        elif variant_of(v) == 'None':
            if inner:
                C.decide(key + ':none', all(implies(c, NOT(_atom(a))) for a in atoms_of(c) if a.op == 'any'), f['path'], 'an edge that leads to the node is found', decidable=sees)
            else:
                C.decide(key + ':none', AND(c, m, eq) is FALSE, f['path'], 'an edge that leads to the node is found', decidable=sees)
    b = back.get(loopkey(j))
    if b is not None and not inner:
        gone = AND(m, NOT(eq), NOT(b))
        C.decide(key + ':goes-on', gone is FALSE, f['path'], 'the search goes on after an edge to another node, but not if %s' % show(gone, 5), decidable=all(known(a) for a in atoms_of(gone)))


def accessors(C):
    """what the accessors hand out, in terms of the graph's fields"""
    if not C.has_field(GT, 'node_ids', 'node_coords', 'node_ch_levels', 'fwd_dsts', 'fwd_offsets', 'fwd_to_fwd_map', 'bwd_dsts', 'bwd_offsets', 'bwd_to_fwd_map', 'metrics', 'edge_ids', 'edge_ids_to_idx_map', 'sc_offsets', 'sc_edges'):
        C.undec('graph-fields', GT, 'the fields of the graph were renamed')
        return
    n1 = raw(mk('arg', 1), NI)
    e1 = raw(mk('arg', 1), EI)
    for x in ('fwd', 'bwd'):
        acc = x + '_edges'
        EA = "EdgeAccessor::<'a>::"

        def simple(m, want, what):
            r = via(C, acc, EA + m)
            if r is None:
                return
            f, E = r
            C.compare('%s:%s' % (acc, m), deref(E, E.ret), want, f['path'], what=what)
        simple('dst_idx', idx(gf(x + '_dsts'), e1), 'the end of edge e of the %s-graph' % x)
        simple('count', mk('len', gf(x + '_dsts')), 'the number of edges')
        simple('try_id', idx(gf('edge_ids'), e1), 'the id of edge e')
        # leaving edges
        r = via(C, acc, EA + 'starting_from')
        if r is not None:
            f, E = r
            it = [E.ret]
            try:
                el = elem_of(E, f, E.ret) if E.ret.op in ('it', 'itp') else None
            except Exception:
                el = None
            if el is None:
                C.undec(acc + ':starting_from', f['path'], show(E.ret, 5))
            else:
                cnt, c, v, j = el
                lo, hi = idx(gf(x + '_offsets'), n1), idx(gf(x + '_offsets'), iadd(n1, I(1)))
                C.decide(acc + ':starting_from:count', cnt is isub(hi, lo) and c is TRUE, f['path'], 'number of edges: %s' % show(cnt, 7), decidable=known(cnt) and (c is TRUE or known(c)))
                h = on(C, "HalfEdge::<'a>::idx", v, {('A', 0): ARG0})
                if h is not None:
                    C.compare(acc + ':starting_from:edge', deref(h[1], h[1].ret), idx(gf(x + '_to_fwd_map'), iadd(lo, j)), f['path'], what='the j-th edge starting from a node')
                for m, w in (("dst_idx", idx(gf(x + '_dsts'), raw(idx(gf(x + '_to_fwd_map'), iadd(lo, j)), EI))),
                             ("metrics", idx(gf('metrics'), raw(idx(gf(x + '_to_fwd_map'), iadd(lo, j)), EI)))):
                    h = on(C, "HalfEdge::<'a>::" + m, v, {('A', 0): ARG0, **{k: q for k, q in E.final.mem.items() if k[0] in ('A', 'L', 'P')}})
                    if h is not None:
                        C.compare(acc + ':starting_from:' + m, deref(h[1], h[1].ret), w, f['path'], what='%s of the j-th edge starting from a node' % m)
        r = via(C, acc, EA + 'between')
        if r is not None:
            between(C, acc, x, r, n1)
        r = via(C, acc, EA + 'is_shortcut')
        off = lambda i: idx(gf('sc_offsets'), i)
        if r is not None:
            f, E = r
            want = NOT(_atom(izero(isub(off(iadd(e1, I(1))), off(e1)))))
            got = cond(E.ret)
            alts_ = {want, lt(off(e1), off(iadd(e1, I(1))))}
            C.decide(acc + ':is_shortcut', got in alts_, f['path'], 'an edge is a shortcut iff its offset differs from the next one: ' + show(got, 7), decidable=known(E.ret) and all(a.op in ('zero', 'neg') for a in atoms_of(got)) and not known_equal(got, want))
        r = via(C, acc, EA + 'sc_edges')
        if r is not None:
            f, E = r
            isc_ = NOT(_atom(izero(isub(off(iadd(e1, I(1))), off(e1)))))
            v = deref(E, E.ret)
            for c, y in leaves(v):
                if variant_of(y) == 'Some':
                    C.compare(acc + ':sc_edges', y.a[4][0], idx(gf('sc_edges'), off(e1)), f['path'], what='the replaced edges of a shortcut')
        r = via(C, acc, EA + 'try_idx_from')
        if r is not None:
            f, E = r
            for c, y in leaves(deref(E, E.ret)):
                if variant_of(y) == 'Ok':
                    v = y.a[4][0]
                    okv = v.op == 'fld' and v.a[2] == '1' and v.a[0].op == 'idx' and v.a[0].a[0] is gf('edge_ids_to_idx_map') or v.op == 'fld'
                    bs = [t for t in subterms(v) if t.op == 'call' and 'binary_search' in t.a[0]]
                    if len(bs) == 1 and len(bs[0].a[2]) == 4:
                        y = bs[0].a[2][2]
                        C.decide(acc + ':searched-key', undrop(y) is fld(idx(gf('edge_ids_to_idx_map'), bs[0].a[2][3]), 'tuple', '0') or y.op == 'fld' and y.a[2] == '0' and y.a[0] is idx(gf('edge_ids_to_idx_map'), bs[0].a[2][3]), f['path'], 'the ids of the map are compared with the given id: %s' % show(y, 5), decidable=known(y, ('call',)))
                    good = len(bs) == 1 and bs[0].a[2][0] is gf('edge_ids_to_idx_map') and bs[0].a[2][1] is mk('arg', 1) and v.op == 'fld' and v.a[2] == '1' and v.a[0] is idx(gf('edge_ids_to_idx_map'), okp(bs[0]))
                    C.decide(acc + ':idx-of-id', good, f['path'], 'the index belonging to an id: ' + show(v, 6), decidable=len(bs) == 1 and bs[0].a[2][0] is gf('edge_ids_to_idx_map') and bs[0].a[2][1] is mk('arg', 1) and (undrop(v) is okp(bs[0]) or v.op == 'fld' and v.a[0].op == 'idx' and v.a[0].a[0] is gf('edge_ids_to_idx_map') and known(rewrite(v, lambda t: I(0) if t is okp(bs[0]) else None))))
    # single accessors
    for m, want, what in (("create", None, ''), ("id", idx(gf('node_ids'), n1), 'id'), ("coord", idx(gf('node_coords'), n1), 'coordinate'), ("level", idx(gf('node_ch_levels'), n1), 'level')):
        r = via(C, 'nodes', "NodeAccessor::<'a>::" + m)
        if r is None:
            continue
        f, E = r
        v = deref(E, E.ret)
        if want is not None:
            C.compare('nodes:' + m, v, want, f['path'], what='the %s of a node' % what)
            continue
        ND = GR + 'Node'
        for meth, w in (('id', idx(gf('node_ids'), n1)), ('idx', mk('arg', 1)), ('coord', idx(gf('node_coords'), n1)), ('ch_level', idx(gf('node_ch_levels'), n1))):
            h = on(C, 'Node::' + meth, v, {('A', 0): ARG0})
            if h is not None:
                C.compare('node:' + meth, deref(h[1], h[1].ret), w, f['path'], what='%s of a node made from its index' % meth)
    r = via(C, 'nodes', "NodeAccessor::<'a>::count")
    if r is not None:
        C.compare('nodes:count', deref(r[1], r[1].ret), mk('len', gf('node_ids')), r[0]['path'], what='number of nodes')
    for m, o in (("create_from", OPTION), ("idx_from", RESULT)):
        r = via(C, 'nodes', "NodeAccessor::<'a>::" + m)
        if r is None:
            continue
        f, E = r
        for c, y in leaves(deref(E, E.ret)):
            if variant_of(y) in ('Some', 'Ok'):
                bs = [t for t in subterms(c) if t.op == 'call' and 'binary_search' in t.a[0]]
                if len(bs) >= 1 and bs[0].a[2][0] is gf('node_ids'):
                    k = bs[0].a[2][1]
                    C.decide('nodes:%s:searched-id' % m, k is mk('arg', 1), f['path'], 'the given id is searched: %s' % show(k, 5), decidable=known(k, ('call',)))
                    if len(bs[0].a[2]) == 4:
                        k = bs[0].a[2][2]
                        C.decide('nodes:%s:searched-key' % m, k is idx(gf('node_ids'), bs[0].a[2][3]), f['path'], 'the ids of the nodes are compared with it: %s' % show(k, 5), decidable=known(k, ('call',)))
                if len(bs) >= 1 and bs[0].a[2][0] is gf('node_ids') and bs[0].a[2][1] is mk('arg', 1):
                    i = okp(bs[0])
                    v = y.a[4][0]
                    if m == 'idx_from':
                        C.compare('nodes:' + m, v, nt(NI, i), f['path'], what='the index of the node with an id')
                    else:
                        h = on(C, 'Node::idx', v, {('A', 0): ARG0})
                        if h is not None:
                            C.compare('nodes:' + m, deref(h[1], h[1].ret), nt(NI, i), f['path'], what='the node with an id')
                        h = on(C, 'Node::coord', v, {('A', 0): ARG0})
                        if h is not None:
                            C.compare('nodes:%s:coord' % m, deref(h[1], h[1].ret), idx(gf('node_coords'), i), f['path'], what='the coordinate of the node with an id')
                else:
                    C.undec('nodes:' + m, f['path'], show(c, 5))


def known_equal(a, b):
    return a is b


# ------------------------------------------------------------------ finalize
class Fin:
    """the graph as built: final value of each field without generated metrics and normalisation, and the generating loop"""

    def __init__(self, C):
        self.C = C
        self.ok = False
        E = self.E = C.run(FIN, key='fin', max_steps=300000)
        if E is None:
            return
        self.root = FIN
        self.r = None
        for x in leafset(E.ret):
            if variant_of(x) == 'Ok' and x.a[4][0].op == 'agg':
                g = x.a[4][0]
                if self.r is not None:
                    C.undec('finalize', FIN, 'several successful results')
                    return
                self.r = dict(zip(g.a[3], g.a[4]))
        if self.r is None:
            C.undec('finalize', FIN, 'no successful result')
            return
        cfgs = [x for x in subjects([self.r[k] for k in self.r], OPTION) if x.op == 'fld' and x.a[2] == 'generating']
        norms = [a for k in ('metrics', 'means') if k in self.r for a in atoms_of(self.r[k]) if a.op == 'fld' and a.a[2] == 'are_normalized']
        self.GEN = E.is_(cfgs[0], OPTION, 'Some') if cfgs else FALSE
        self.NORM = norms[0] if norms else FALSE
        self.base_c = AND(NOT(self.GEN), NOT(self.NORM))
        self.ok = True

    def base(self, n):
        v = self.r.get(n)
        return None if v is None else restrict(v, self.base_c)

    def per_edge(self, n):
        """(sequence term, [(position, source array, condition, value)])"""
        v = self.base(n)
        if v is None:
            return None
        while v.op in ('sorted', 'deduped', 'resized', 'truncated'):
            v = v.a[0]
        if v.op == 'ite':
            vs = {strip_order(x) for x in alts(v)}
            if len(vs) == 1:
                v = vs.pop()
        g = grown(self.E, v)
        return None if g is None else (v, g)


def strip_order(v):
    while v.op in ('sorted', 'deduped', 'resized', 'truncated'):
        v = v.a[0]
    return v


def overwritten(E, p):
    """a sequence whose elements get fields overwritten in a loop over it: (initial sequence, {field: value})"""
    if p.op != 'phi' or p not in E.phi_ops:
        return p, {}
    i, n = E.phi_ops[p]
    if n is None or n.op != 'store' or n.a[0] is not p:
        return p, {}
    j, v = n.a[1], n.a[2]
    if not (isinstance(j, T) and j.op == 'rng'):
        return p, {}
    if v.op == 'with' and v.a[0] is idx(p, j):
        return i, {(k[1] if k[0] == 'f' else k[0][1]): w for k, w in v.a[1]}
    if v.op == 'with' and v.a[0].op == 'idx' and v.a[0].a[0] is p:
        return i, {(k[1] if k[0] == 'f' else k[0][1]): w for k, w in v.a[1]}
    return p, {}


def member(v):
    """(array, position, field) of `array[position].field`"""
    if v.op == 'fld' and v.a[0].op == 'idx':
        return v.a[0].a[0], v.a[0].a[1], v.a[2]
    return None


def always(E, keys, c):
    """is the push done in every iteration of its innermost loop?"""
    bp = E.back_pc.get(keys[-1])
    return bp is not None and implies(bp, c)


def one_push(C, F, key, name, where=FIN):
    """the single value pushed per iteration to the array `name` of the graph"""
    q = F.per_edge(name)
    if q is None or len(q[1][1]) == 0:
        C.undec(key, where, 'how %s grows is not understood' % name)
        return None
    ps = q[1][1]
    vals = {v for ks, c, vs in ps for v in vs}
    if len(vals) != 1 or any(len(vs) != 1 for ks, c, vs in ps) or len({ks for ks, c, vs in ps}) != 1:
        C.undec(key, where, '%d different values are pushed to %s' % (len(vals), name))
        return None
    ks = ps[0][0]
    return ks, OR(*[c for k, c, v in ps]), counted(F.E, vals.pop()), q[1][0]


class Edges:
    """the loop that fills the per-edge arrays: source array S, position j; and the array S is made of"""

    def __init__(self, C, F):
        self.C, self.F, self.S = C, F, None
        E = F.E
        p = one_push(C, F, 'array:fwd_dsts', 'fwd_dsts')
        if p is None:
            return
        ks, c, v, i = p
        m = member(v)
        if m is None:
            C.undec('array:fwd_dsts', FIN, show(v, 6))
            return
        self.S, self.j, _ = m
        self.keys = ks
        self.S0, self.over = overwritten(E, self.S)
        g = grown(E, self.S0)
        self.rec = self.rkeys = None
        if g is not None and is_empty(g[0]) and len(g[1]) == 1 and len(g[1][0][2]) == 1:
            v = g[1][0][2][0]
            self.rkeys, self.rcond = g[1][0][0], g[1][0][1]
            if v.op == 'agg':
                self.rec = dict(zip(v.a[3], v.a[4]))
        # the element every record is made of
        self.X = None
        if self.rec:
            xs = {w.a[0] for n, w in self.rec.items() if w.op == 'fld'}
            if len(xs) == 1:
                self.X = xs.pop()


def strip_metric_fix(E, v):
    """metrics of a row, apart from the replacement of values around zero: (origin, [(condition, replacement)])"""
    if v.op == 'phi' and v in E.phi_ops and E.phi_ops[v][1] is not None:
        i, n = E.phi_ops[v]
        reps = []
        for c, x in leaves(n, E.back_pc.get(loopkey(v), TRUE)):
            if x is v:
                continue
            if x.op == 'store' and x.a[0] is v:
                reps.append((c, x.a[1], x.a[2]))
            else:
                return None, []
        return i, reps
    return v, []


def lockstep(C, F, D):
    E = F.E
    if D.S is None:
        return
    j = D.j
    want = {'fwd_dsts': ('dst_idx', 'destination'), 'bwd_dsts': ('src_idx', 'source'), 'edge_ids': ('id', 'id')}
    for n, (fn_, what) in want.items():
        p = one_push(C, F, 'array:' + n, n)
        if p is None:
            continue
        ks, c, v, i = p
        m = member(v)
        if m is None or m[0] is not D.S or m[1] is not j:
            C.undec('array:' + n, FIN, show(v, 6))
            continue
        C.decide('array:' + n, m[2] == fn_, FIN, '%s[e] is the %s (found: %s) of the e-th edge' % (n, what, m[2]), decidable=m[2] in ('src_idx', 'dst_idx', 'id', 'idx'))
        C.decide('array-total:' + n, is_empty(i) and ks == D.keys and always(E, ks, c), FIN, '%s gets exactly one entry per edge' % n, decidable=ks == D.keys)
    p = one_push(C, F, 'array:fwd_to_fwd_map', 'fwd_to_fwd_map')
    if p is not None:
        ks, c, v, i = p
        w = undrop(v)
        C.decide('array:fwd_to_fwd_map', w is j and ks == D.keys, FIN, 'the forward-mapping is the identity: %s' % show(v, 5), decidable=known(w) and ks == D.keys)
        C.decide('array-total:fwd_to_fwd_map', always(E, ks, c) and is_empty(i), FIN, 'one entry per edge', decidable=ks == D.keys)
    p = one_push(C, F, 'array:edge_ids_to_idx_map', 'edge_ids_to_idx_map')
    if p is not None:
        ks, c, v, i = p
        if v.op == 'agg' and v.a[0] == 'tuple' and len(v.a[4]) == 2:
            a, b = v.a[4]
            isid = a.op == 'vfld' and member(a.a[0]) is not None and member(a.a[0])[:2] == (D.S, j)
            C.decide('array:edge_ids_to_idx_map', isid and member(a.a[0])[2] == 'id' and undrop(b) is j, FIN, 'an edge-id is mapped to the index of its edge: %s' % show(b, 5), decidable=isid and known(undrop(b)) and ks == D.keys)
            if isid:
                idc = E.is_(a.a[0], OPTION, 'Some')
                bp = E.back_pc.get(ks[-1], FALSE)
                C.decide('array-total:edge_ids_to_idx_map', implies(AND(bp, idc), c), FIN, 'every edge with an id is in the mapping', decidable=ks == D.keys)
    # records and metrics are made of the same element in the same step
    p = one_push(C, F, 'array:metrics', 'metrics')
    if p is not None and D.rec is not None and D.X is not None:
        ks, c, v, i = p
        o, reps = strip_metric_fix(E, v)
        m = o is not None and o.op == 'fld' and o.a[2] == 'metrics'
        if not m:
            C.undec('array:metrics', FIN, show(v, 5))
        else:
            C.decide('array:metrics', o.a[0] is D.X and ks == D.rkeys, FIN, 'metrics[e] are the metrics of the e-th edge', decidable=ks == D.rkeys and o.a[0] is not D.X and known_elem(o.a[0]))
            C.decide('array-total:metrics', is_empty(i) and always(E, ks, c) and always(E, D.rkeys, D.rcond), FIN, 'one row of metrics per edge')
            for cc, pos, rep in reps:
                old = [t for a in atoms_of(cc) for t in subterms(a) if t.op == 'idx' and t.a[0] is v]
                C.decide('zero-metric', cfloat(rep) is not None and 0 < cfloat(rep) <= 1e-4, FIN, 'a metric around zero becomes the smallest positive value: %s' % show(rep, 3), decidable=cfloat(rep) is not None)
                f = [a for a in atoms_of(cc) if a.op in ('fle', 'flt', 'feq') and contains(a, lambda t: t.op == 'idx' and t.a[0] is v)]
                C.decide('zero-metric:position', all(t.a[1] is pos for a in f for t in subterms(a) if t.op == 'idx' and t.a[0] is v) and bool(f), FIN, 'only values around zero are replaced', decidable=bool(f))
    if D.rec is not None and D.X is not None:
        for n in ('src_idx', 'dst_idx', 'id'):
            w = D.rec.get(n)
            if w is not None and w.op == 'fld' and w.a[0] is D.X:
                C.decide('record:' + n, w.a[2] == n, FIN, '%s of an edge is taken from its %s' % (n, w.a[2]))
            else:
                C.undec('record:' + n, FIN, show(w, 5) if w is not None else 'missing')
    # node ids become node indices of the same side
    B = proto_b(C, F)
    if B is not None:
        rec, X = B
        for n, src in (('src_idx', 'src_id'), ('dst_idx', 'dst_id')):
            w = rec.get(n)
            bs = [t for t in subterms(w) if t.op == 'call' and 'binary_search' in t.a[0]] if w is not None else []
            if len(bs) == 1 and undrop(w) is okp(bs[0]):
                k = bs[0].a[2][1]
                C.decide('id-to-index:' + n, k.op == 'fld' and k.a[2] == src and bs[0].a[2][0] is F.base('node_ids'), FIN, '%s is the index of the node %s' % (n, show(k, 3)), decidable=k.op == 'fld')
            else:
                C.undec('id-to-index:' + n, FIN, show(w, 5) if w is not None else 'missing')
        for n in ('metrics', 'id', 'idx', 'sc_edges'):
            w = rec.get(n)
            if w is not None and w.op == 'fld':
                C.decide('proto:' + n, w.a[2] == n, FIN, '%s of an edge is taken from its %s' % (n, w.a[2]))


def known_elem(x):
    return x.op == 'idx'


def sorts(E):
    return [e for e in E.eff if e.kind == 'sort' and e.vals[1] is not UNDEF and e.vals[1].op == 'agg']


def proto_b(C, F):
    """the record with node indices, made from the parsed edges"""
    E = F.E
    for p in E.phi_ops:
        g = grown(E, p) if E.phi_ops[p][0] is not None and is_empty(E.phi_ops[p][0]) else None
        if g and len(g[1]) == 1 and len(g[1][0][2]) == 1 and g[1][0][2][0].op == 'agg' and 'sc_edges' in g[1][0][2][0].a[3] and 'metrics' in g[1][0][2][0].a[3]:
            v = g[1][0][2][0]
            rec = dict(zip(v.a[3], v.a[4]))
            if 'src_idx' in rec:
                return rec, None
    C.undec('id-to-index', FIN, 'the replacement of ids by indices is not understood')
    return None


def builders(C):
    """edges and nodes on their way into the graph"""
    B = GR + 'building::'
    E = C.run(B + 'EdgeBuilder::next')
    if E is not None:
        for c, x in leaves(E.ret):
            if x.op != 'agg':
                continue
            r = dict(zip(x.a[3], x.a[4]))
            v = r.get('node_ids')
            if v is None:
                continue
            ok = v.op == 'deduped' and v.a[0].op == 'sorted'
            shown = show(v, 4)
            base = strip_order(v)
            C.decide('node-ids-sorted', ok and v.a[2] is UNDEF and v.a[0].a[2] is UNDEF, B + 'EdgeBuilder::next', 'the node ids are sorted and unique: ' + shown, decidable=base.op in ('fld',) or known(base))
            for n in ('node_coords', 'node_ch_levels'):
                w = r.get(n)
                if w is not None and w.op == 'repeat':
                    C.decide('node-array:' + n, w.a[1] is mk('len', v), B + 'EdgeBuilder::next', '%s has one entry per node' % n, decidable=False)
    f = B + 'NodeBuilder::insert'
    E = C.run(f)
    if E is not None and C.has_field(B + 'NodeBuilder', 'node_ids', 'node_coords', 'node_ch_levels'):
        NB = B + 'NodeBuilder'
        self0 = E.final.mem.get(('A', 0))
        bs = [e.val for e in E.eff if e.kind == 'call' and 'binary_search' in e.name]
        if len(bs) == 1:
            b = bs[0]
            C.decide('node-insert:search', b.a[2][0] is fld(ARG0, NB, 'node_ids') and b.a[2][1].op == 'fld' and b.a[2][1].a[2] == 'id', f, 'a node is searched by its id', decidable=known(b.a[2][1]))
            found = E.is_(b, RESULT, 'Ok')
            for n, part in (('node_coords', 'coord'), ('node_ch_levels', 'ch_level')):
                w = E.proj(self0, ('f', n, NB))
                for c, x in leaves(w, found):
                    if x.op == 'store':
                        for _, val in leaves(x.a[2], c):
                            if n == 'node_ch_levels' and val is idx(fld(ARG0, NB, n), okp(b)):
                                continue
                            if val.op == 'agg' and val.a[2] == 'Some':
                                val = val.a[4][0]
                            if val.op == 'vfld':
                                val = val.a[0]
                            C.decide('node-insert:' + n, x.a[1] is okp(b) and val.op == 'fld' and val.a[2] == part, f, '%s[index of the node] becomes %s of the node' % (n, show(val, 4)), decidable=known(x.a[1]) and known(val))
                    elif n == 'node_coords':
                        C.decide('node-insert:' + n, False, f, 'a known node gets its coordinate', decidable=x is fld(ARG0, NB, n) and all(a.op == 'is' and a.a[0] is b for a in atoms_of(c)))
        else:
            C.undec('node-insert', f, 'no search')
    f = B + 'EdgeBuilder::insert'
    for g in C.P.fns.values():
        if g['path'] == f:
            E = C.run(f, key='m', no_inline={h['path'] for h in C.P.fns.values() if h['path'].endswith('::into')})
            if E is None or not C.has_field(B + 'EdgeBuilder', 'proto_edges', 'proto_shortcuts', 'node_ids'):
                continue
            EB = B + 'EdgeBuilder'
            s = E.final.mem.get(('A', 0))
            old = fld(ARG0, EB, 'proto_edges')
            olds = fld(ARG0, EB, 'proto_shortcuts')
            inserted_nodes(C, E, f, E.proj(s, ('f', 'node_ids', EB)), fld(ARG0, EB, 'node_ids'))
            pe = E.proj(s, ('f', 'proto_edges', EB))
            ps = E.proj(s, ('f', 'proto_shortcuts', EB))
            for c, x in leaves(pe):
                if x is old:
                    C.decide('edge-insert', False, f, 'an inserted edge is kept', decidable=known(c) or all(a.op == 'is' for a in atoms_of(c)))
                    continue
                if x.op == 'push' and x.a[0] is old and x.a[1].op == 'agg':
                    r = dict(zip(x.a[1].a[3], x.a[1].a[4]))
                    for n in ('id', 'src_id', 'dst_id', 'metrics'):
                        w = r.get(n)
                        if w is None or w.op != 'fld':
                            C.undec('edge-insert:' + n, f)
                            continue
                        C.decide('edge-insert:' + n, w.a[2] == n, f, '%s of the stored edge is %s of the inserted one' % (n, w.a[2]))
                    w = r.get('idx')
                    if w is not None:
                        C.decide('edge-insert:idx', w is mk('len', old), f, 'the stored index is the number of the edge: %s' % show(w, 4), decidable=known(w))
                    w = r.get('sc_edges')
                    p2 = restrict(ps, c)
                    for c2, y in leaves(p2, c):
                        ww = restrict(w, c2)
                        if y.op == 'push' and y.a[0] is olds:
                            good = variant_of(ww) == 'Some' and ww.a[4][0] is mk('len', olds)
                            C.decide('edge-insert:shortcut', good, f, 'a shortcut refers to its replaced edges: %s' % show(ww, 4), decidable=known(ww))
                        elif y is olds:
                            C.decide('edge-insert:plain', variant_of(ww) == 'None', f, 'an edge without replaced edges is plain', decidable=variant_of(ww) is not None)
                else:
                    C.undec('edge-insert', f, show(x, 4))


def inserted_nodes(C, E, f, v, old):
    """both ends of an inserted edge become nodes, unless they are known to be there"""
    ends = {'src_id', 'dst_id'}
    key = 'edge-insert:nodes'

    def held(a, el):
        return a.op == 'call' and a.a[0].endswith('::contains') and a.a[2][1] is el and contains(a.a[2][0], lambda t: t.op == 'phi' or t is old)
    for c, x in leaves(v):
        got, y = set(), x
        while y.op == 'push' and y.a[1].op == 'fld':
            got.add(y.a[1].a[2])
            y = y.a[0]
        if y is old:
            for n in sorted(ends - got):
                there = [a for a in atoms_of(c) if a.op == 'call' and a.a[0].endswith('::contains') and a.a[2][1].op == 'fld' and a.a[2][1].a[2] == n and implies(c, _atom(a))]
                C.decide(key, bool(there), f, '%s of an inserted edge is remembered as a node' % n, decidable=not any(a.op == 'call' and not a.a[0].endswith('::contains') for a in atoms_of(c)))
            if got >= ends:
                C.ok(key, f, 'both ends of an inserted edge are remembered as nodes')
        elif not got and y.op == 'phi' and y in E.phi_ops and E.phi_ops[y][0] is old and E.phi_ops[y][1] is not None:
            bp = E.back_pc.get(loopkey(y), TRUE)
            els = {z.a[1] for c2, z in leaves(E.phi_ops[y][1], bp) if z.op == 'push' and z.a[0] is y}
            el = els.pop() if len(els) == 1 else None
            if el is None or el.op != 'idx' or el.a[0].op != 'agg' or el.a[0].a[0] != 'array' or el.a[1].op != 'rng':
                C.undec(key, f, show(E.phi_ops[y][1], 5))
                continue
            names = {t.a[2] for t in el.a[0].a[4] if t.op == 'fld'}
            C.decide(key, names >= ends and cint(el.a[1].a[2]) == len(el.a[0].a[4]), f, 'the ends of an inserted edge are remembered as nodes: %s' % ', '.join(sorted(names)), decidable=len(names) == len(el.a[0].a[4]))
            for c2, z in leaves(E.phi_ops[y][1], bp):
                if z is y:
                    C.decide(key + ':skipped', any(held(a, el) and implies(c2, _atom(a)) for a in atoms_of(c2)), f, 'an end is left out only if it is there already', decidable=all(known(a) or held(a, el) or a.op == 'more' for a in atoms_of(c2)))
            for a in atoms_of(bp):
                if held(a, el):
                    C.decide(key + ':each', AND(bp, _atom(a)) is not FALSE and AND(bp, NOT(_atom(a))) is not FALSE, f, 'one end being there already does not keep the other one out')
                    break
            else:
                C.ok(key + ':each', f, 'the loop over both ends is never left early')
        else:
            C.undec(key, f, show(x, 5))


def node_arrays(C, F):
    """ids, coordinates and levels of nodes stay in step"""
    want = {n: fld(ARG0, GB, n) for n in ('node_ids', 'node_coords', 'node_ch_levels')}
    if not C.has_field(GB, *want):
        C.undec('node-arrays', FIN, 'fields renamed')
        return
    for n, w in want.items():
        v = F.base(n)
        if v is None:
            C.undec('node-array:' + n, FIN)
            continue
        if v.op == 'collect' and v.a[1] is TRUE and v.a[0].a[2] is mk('len', w):
            x = v.a[2]
            if x.op == 'vfld':
                x = x.a[0]
            C.decide('node-array:' + n, x is idx(w, v.a[0]), FIN, '%s[n] of the graph is %s' % (n, show(x, 4)), decidable=known(x))
        else:
            C.decide('node-array:' + n, v is w, FIN, '%s of the graph are those of the builder: %s' % (n, show(v, 4)), decidable=known(v))


def p13(pid, tier):
    C = Check(pid, tier, 'each accessor of the graph, composed with the graph\'s field it refers to, returns the entry at its own index; in the construction, the entries pushed to all per-edge arrays in one loop iteration are parts of one and the same element, unconditionally, and the mapping arrays hold that element\'s position; the rows of metrics are pushed in lock-step with the records the arrays are filled from; node ids are replaced by the index of the node with the id of the same side')
    accessors(C)
    F = Fin(C)
    if F.ok:
        D = Edges(C, F)
        lockstep(C, F, D)
        node_arrays(C, F)
    builders(C)
    return C.finish(min_ok=40)


CHECKS = {'P13': p13}
