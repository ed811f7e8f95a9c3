"""Rules about the construction of the graph: offset arrays (P14), duplicates and shortcuts (P15)."""
from ..lib import *
from ..terms import _atom
from .graph import *
from .io_read import lt


def sort_of(v):
    """(container sorted, key components in terms of an element, element) of a sorted sequence"""
    if v.op != 'sorted':
        return None
    k, j = v.a[2], v.a[3]
    if k is UNDEF:
        return None
    ks = list(k.a[4]) if k.op == 'agg' and k.a[0] == 'tuple' else [k]
    return v.a[0], ks, idx(v.a[0], j)


def reverse_of(k):
    if k.op == 'agg' and k.a[0] == 'adt' and k.a[2] == 'Reverse':
        return k.a[4][0]
    return None


def chunked(E, x):
    """the sequence whose elements x = chunk[i] runs through in order; chunks are split from its end.
    returns (sequence, True: same order | False: other order | None: not understood)"""
    if x is None or x.op != 'idx' or x.a[0].op != 'call' or 'splice' not in x.a[0].a[0]:
        return None, None
    ch, i = x.a
    src = ch.a[2][0]
    if src.op != 'phi' or src not in E.phi_ops:
        return None, None
    init, nxt = E.phi_ops[src]
    rng = ch.a[2][1]
    n = mk('len', ch)
    r = [t for t in subterms(i) if t.op == 'rng' and t.a[2] is n]
    if not r:
        return None, None
    fwd = i is r[0]
    bwd = i is isub(isub(n, I(1)), r[0])
    if not (rng.op == 'agg' and rng.a[2] == 'RangeFrom') or not (fwd or bwd):
        return None, None
    rev = init.op == 'reversed'
    return (init.a[0] if rev else init), (rev and bwd)


def offsets(C, F, D, x, what, key):
    """offset array: entry n is the number of edges before the first edge of node n"""
    E = F.E
    n = x + '_offsets'
    v = F.base(n)
    kk = 'offsets:' + x
    if v is None or v.op != 'resized':
        if v is not None and v.op == 'phi':
            g = grown(E, v)
            fill = None
            tail = 'nothing is added'
        elif v is not None and v.op == 'push' and v.a[0].op == 'phi':
            g = grown(E, v.a[0])
            fill = v.a[1]
            tail = 'only one entry is added'
        else:
            C.undec(kk, FIN, show(v, 4) if v is not None else 'missing')
            return None
    else:
        tail = None
        g = grown(E, v.a[0])
        nn, fill = v.a[1], v.a[2]
        cnt = F.base('node_ids')
        C.decide(kk + ':length', nn is iadd(mk('len', cnt), I(1)) or nn is iadd(mk('len', fld(ARG0, GB, 'node_ids')), I(1)), FIN, 'one entry more than nodes: %s' % show(nn, 5), decidable=known(nn))
    if g is not None and g[1] and all(len(ks) == 1 for ks, _, _ in g[1]):
        # a bounded number of offsets per edge cannot cover gaps of any size
        o = g[1][0][0][0]
        rs = [t for t in subterms(E.back_pc.get(o, TRUE)) if t.op == 'rng' and (t.a[0], t.a[1]) == o and t.a[3] == '']
        if rs and rs[0].a[2].op == 'len' and rs[0].a[2].a[0] in (D.S, D.S0):
            C.viol(kk + ':until', FIN, 'at most %d entries per edge: several nodes in a row without edges get no offsets' % max(len(vs) for _, _, vs in g[1]))
            return None
    if g is None or len(g[1]) != 1 or len(g[1][0][0]) != 2:
        C.undec(kk, FIN, 'growth of the offsets')
        return None
    i, ((ks, c, vals),) = g
    C.decide(kk + ':first', i.op == 'agg' and i.a[4] and len(i.a[4]) == 1 and cint(i.a[4][0]) == 0, FIN, 'the first offset is 0: %s' % show(i, 3), decidable=i.op == 'agg')
    outer, inner = ks
    rs = [t for t in subterms(E.back_pc.get(outer, TRUE)) if t.op == 'rng' and (t.a[0], t.a[1]) == outer and t.a[3] == '']
    if not rs:
        C.undec(kk, FIN, 'outer loop')
        return None
    j = rs[0]
    vv = [counted(E, settle(E, t)) for t in vals]
    C.decide(kk + ':value', len(vv) == 1 and vv[0] is j, FIN, 'the offset of a node is the number of edges before: %s' % show(vv[0], 4), decidable=all(known(t) or stalls(E, t) for t in vv))
    if fill is not None:
        f = counted(E, settle(E, fill))
        good = f is j or f.op == 'len' and f.a[0] in (D.S, D.S0)
        C.decide(kk + ':fill', good, FIN, 'nodes after the last source get the number of edges: %s' % show(f, 4), decidable=known(f))
    # the inner loop goes on while the node of the offset is not the node of the edge
    bp = E.back_pc.get(inner, TRUE)
    bp = settle(E, bp)
    cand = []
    for a in atoms_of(bp):
        if contains(a, lambda t: t.op == 'phi' and loopkey(t) == inner) and a.op in ('eq', 'zero', 'neg'):
            cand.append(a)
    if len(cand) != 1:
        C.undec(kk + ':until', FIN, show(bp, 6))
        return None
    a = cand[0]
    ph = [t for t in subterms(a) if t.op == 'phi' and loopkey(t) == inner]
    ps, el = None, None
    for t in ph:
        i0, n0 = E.phi_ops.get(t, (None, None))
        if n0 is not None and n0 is iadd(t, I(1)):
            ps = t
    if a.op == 'eq':
        ot = [y for y in a.a if y is not ps]
        el = ot[0] if len(ot) == 1 else None
    else:
        ot = [y for y, k in a.a[0].a[1] if y is not ps] if a.a[0].op == 'lin' else []
        el = ot[0] if len(ot) == 1 else None
    if ps is None or el is None:
        for t in ph:
            st = E.phi_ops.get(E.phi_ops.get(t, (UNDEF, None))[0], (None, None))[0]
            if st is not None and contains(st, lambda q: q is D.S or q.op == 'sorted') and known(st, ('phi', 'sorted')) and any(v.op == 'fld' or v.op == 'idx' for c2, v in leaves(st)):
                C.viol(kk + ':node', FIN, 'the nodes start with %s, so the nodes before get no offsets' % show(st, 5))
        C.undec(kk + ':until', FIN, show(a, 6))
        return None
    # start and propagation of the node
    pi = E.phi_ops[ps][0]
    po = E.phi_ops.get(pi, (None, None))
    C.decide(kk + ':node', po[0] is not None and cint(po[0]) == 0 and po[1] is ps, FIN, 'the node starts at 0 and is kept between edges', decidable=po[0] is not None and cint(po[0]) is not None and cint(po[0]) != 0)
    good, und = True, False
    for s in range(4):
        for t in range(s, 4):
            f = eval_lin(a if a.op != 'c' else a, {ps: I(0) and s, el: t})
            f2 = eval_lin(restrict(bp, TRUE), {ps: s, el: t})
            rest = [y for y in atoms_of(f2) if contains(y, lambda q: q is ps)]
            if rest:
                und = True
            elif (f2 is not FALSE) != (s < t):
                good = False
    if tail is not None:
        C.decide(kk + ':length', not (good and not und), FIN, 'nodes behind the last one with an edge need an entry, too: %s after the loop' % tail, decidable=good and not und)
    C.decide(kk + ':until', good and not und, FIN, 'the offset is repeated exactly until the node of the edge is reached: %s' % show(a, 6), decidable=not und)
    w = undrop(el)
    if w.op == 'fld' and w.a[2] == '0':
        w = w.a[0]
    m = member(w)
    if m is None:
        C.undec(kk + ':source', FIN, show(el, 6))
        return None
    arr, pos, fl = m
    C.decide(kk + ':source', pos is j and fl == key, FIN, 'the offsets follow %s of the edges (expected %s)' % (fl, key), decidable=fl in ('src_idx', 'dst_idx') and pos is j)
    return arr, j


def stalls(E, t):
    """a counter that some iterations do not increase"""
    if t.op != 'phi' or t not in E.phi_ops or cint(E.phi_ops[t][0]) is None:
        return False
    vs = {v for c, v in leaves(E.phi_ops[t][1], E.back_pc.get(loopkey(t), TRUE))}
    return vs == {t, iadd(t, I(1))}


def order_of_forward(C, F, D):
    """the sort that the order of the edge array comes from, followed through the construction"""
    E = F.E
    seq, same = chunked(E, D.X) if D.X is not None else (None, None)
    if seq is None:
        C.undec('order:metrics-loop', FIN, show(D.X, 4) if D.X is not None else '')
        return None
    C.decide('order:metrics-loop', same is True, FIN, 'the chunks are taken in the order of the edges')
    while seq.op == 'truncated':
        seq = seq.a[0]
    return seq


def sorted_by(C, key, v, first, second=None):
    s = sort_of(v)
    if s is None:
        C.decide(key, False, FIN, 'the edges are sorted by %s: %s' % (first, show(v, 3)), decidable=v.op in ('fld', 'phi') and False)
        return
    cont, ks, el = s
    k = ks[0]
    m = k.op == 'fld' and k.a[0] is el
    C.decide(key, m and k.a[2] == first, FIN, 'the first sort key is %s' % show(k, 4), decidable=known(k, ('phi',)))


def p14(pid, tier):
    C = Check(pid, tier, 'forward: the edge array is sorted with the source node as first key, its order is kept up to the loop that fills the offsets; that loop pushes the number of preceding edges until the node of the current edge is reached, starts with node 0 and offset 0, and the array is filled up to one entry more than nodes; backward: the same with the destination node; the backward mapping holds the forward position stored in each edge before sorting')
    F = Fin(C)
    if not F.ok:
        return C.finish()
    E = F.E
    D = Edges(C, F)
    r = offsets(C, F, D, 'fwd', 'source', 'src_idx')
    if r is not None:
        C.decide('offsets:fwd:array', r[0] is D.S, FIN, 'the forward offsets and the edges come from the same array', decidable=False)
    seq = order_of_forward(C, F, D)
    if seq is not None:
        # through the removal of duplicates
        if seq.op == 'phi' and seq in E.phi_ops:
            sorted_by(C, 'order:fwd', E.phi_ops[seq][0], 'src_idx')
            swaps(C, F, seq)
        else:
            sorted_by(C, 'order:fwd', seq, 'src_idx')
    r = offsets(C, F, D, 'bwd', 'destination', 'dst_idx')
    if r is not None:
        arr, j = r
        sorted_by(C, 'order:bwd', arr, 'dst_idx')
        if arr.op == 'sorted':
            C.decide('bwd:array', arr.a[0] is D.S, FIN, 'the backward edges are the forward edges', decidable=False)
        p = one_push(C, F, 'bwd_to_fwd_map', 'bwd_to_fwd_map')
        if p is not None:
            ks, c, v, i = p
            w = undrop(v)
            m = member(w)
            if m is None:
                C.decide('bwd_to_fwd_map', False, FIN, 'entry of the backward mapping: %s' % show(w, 5), decidable=known(w) and contains(w, lambda t: t is j))
            else:
                C.decide('bwd_to_fwd_map', m[0] is arr and m[1] is j and m[2] == 'idx', FIN, 'the backward mapping holds the index of the edge: .%s' % m[2], decidable=m[0] is arr)
            C.decide('bwd_to_fwd_map:total', is_empty(i) and always(E, ks, c), FIN, 'one entry per edge')
        ov = D.over.get('idx')
        if ov is not None:
            q = counted(E, settle(E, ov))
            C.decide('edge-position', q is D.j, FIN, 'the position stored in an edge is its forward index: %s' % show(q, 4), decidable=known(q))
        elif D.rec is not None and 'idx' in D.rec:
            w = counted(E, D.rec['idx'])
            C.decide('edge-position', False, FIN, 'the position stored in an edge is its forward index: %s' % show(w, 4), decidable=cint(w) is not None)
    for x in ('fwd', 'bwd'):
        v = F.base(x + '_to_fwd_map')
        w = F.base(x + '_offsets')
    accessors(C)
    return C.finish(min_ok=30)


class Dedup:
    """the loop removing duplicates: array p, write position w, read position r, removed positions"""

    def __init__(self, C, F, p):
        E = F.E
        self.p = p
        self.ok = False
        i, n = E.phi_ops[p]
        if n is None:
            return
        self.init = i
        bp = E.back_pc.get(loopkey(p), TRUE)
        self.dup, self.keep, self.sw = FALSE, FALSE, set()
        self.other = []
        for c, v in leaves(n, bp):
            if v is p:
                self.dup = OR(self.dup, c)
            elif v.op == 'swapped' and v.a[0] is p:
                self.keep = OR(self.keep, c)
                self.sw.add((v.a[1], v.a[2]))
            else:
                self.other.append(v)
        if self.other or len(self.sw) != 1:
            return
        self.w, self.r = self.sw.pop()
        # swapping an element with itself may be left out
        for a in atoms_of(self.dup):
            if a.op == 'zero' and a.a[0] in (isub(self.w, self.r), isub(self.r, self.w)):
                rest = restrict(self.dup, NOT(_atom(a)))
                self.keep = OR(self.keep, AND(self.dup, _atom(a), NOT(rest)))
                self.dup = AND(self.dup, NOT(AND(_atom(a), NOT(rest))))
        if E.phi_ops.get(self.r) is not None and self.w not in E.phi_ops:
            self.w, self.r = self.r, self.w
        if self.w not in E.phi_ops:
            return
        self.ok = True


def swaps(C, F, p):
    E = F.E
    d = Dedup(C, F, p)
    if not d.ok:
        C.undec('dedup-shape', FIN, 'the removal of duplicates is not understood')
        return None
    wi, wn = E.phi_ops[d.w]
    r = counted(E, settle(E, d.r))
    rs = [t for t in subterms(r) if t.op == 'rng']
    first = isub(r, rs[0]) if len(rs) == 1 else None
    C.decide('dedup:start', cint(wi) is not None and first is not None and cint(wi) == cint(first) == 1, FIN, 'reading and writing start at the second edge: %s, %s' % (show(wi, 3), show(r, 3)), decidable=cint(wi) is not None and first is not None and cint(first) is not None)
    if len(rs) == 1:
        n = rs[0].a[2]
        want = [isub(mk('len', x), I(1)) for x in (d.init, strip_order(d.init), d.p)]
        C.decide('dedup:all', n in want, FIN, 'every further edge is looked at: %s' % show(n, 5), decidable=known(n, ('phi',)) and n.op in ('lin', 'c'))
    bp = E.back_pc.get(loopkey(d.p), TRUE)
    for c, v in leaves(wn, bp):
        if v is d.w:
            C.decide('dedup:write-stays', AND(c, d.keep) is FALSE, FIN, 'the write position stays only for duplicates', decidable=implies(c, d.keep))
        elif v is iadd(d.w, I(1)):
            C.decide('dedup:write-moves', AND(c, d.dup) is FALSE, FIN, 'the write position moves only for edges that are kept', decidable=implies(c, d.dup))
        else:
            C.undec('dedup:write', FIN, show(v, 4))
    return d


def p15(pid, tier):
    C = Check(pid, tier, 'an edge is dropped only on paths on which its id, source, destination and every metric equal those of the kept edge before it; every dropped position is recorded on the same paths; positions of replaced edges are translated entry by entry through the table old position -> new position, and decremented once per recorded position not above them, in descending order; shortcuts are attached to the edge position they were stored with')
    F = Fin(C)
    if not F.ok:
        return C.finish()
    E = F.E
    D = Edges(C, F)
    seq = order_of_forward(C, F, D)
    trunc = None
    if D.X is not None:
        t, _ = chunked(E, D.X)
        if t is not None and t.op == 'truncated':
            trunc = t.a[1]
    d = swaps(C, F, seq) if seq is not None and seq.op == 'phi' else None
    removed = None
    if d is not None:
        duplicates(C, F, d)
        removed = removed_positions(C, F, d, trunc)
    remap(C, F, d, removed, D)
    attach(C, F, D)
    builders(C)
    return C.finish(min_ok=15)


def eq_of(a, x, y, f):
    """does the atom compare field f of x and y?"""
    return a.op in ('eq', 'zero') and contains(a, lambda t: t is fld2(x, f)) and contains(a, lambda t: t is fld2(y, f))


def fld2(x, f):
    return x


def members_of(a, p):
    """{(position, field)} of elements of the sequence p occurring in a term"""
    out = set()
    for t in parts(a):
        if t.op == 'fld' and t.a[0].op == 'idx' and t.a[0].a[0] is p:
            out.add((t.a[0].a[1], t.a[2]))
    return out


def duplicates(C, F, d):
    E = F.E
    prev = isub(d.w, I(1))
    at = atoms_of(settle(E, d.dup)) + atoms_of(settle(E, d.keep))
    dup, keep = settle(E, d.dup), settle(E, d.keep)
    conj = []
    for f in ('id', 'src_idx', 'dst_idx'):
        cmp_ = [(x, members_of(x, d.p)) for x in at if x.op in ('eq', 'zero', 'fle') and len(members_of(x, d.p)) == 2]
        a = [x for x, ms in cmp_ if ms == {(prev, f), (d.r, f)}]
        if not a and any({q for z, q in ms} == {f} for x, ms in cmp_):
            ps = next({z for z, q in ms} for x, ms in cmp_ if {q for z, q in ms} == {f})
            C.decide('duplicate:' + f, False, FIN, 'the edge is compared with the last kept one: positions %s' % ', '.join(show(z, 4) for z in ps), decidable=d.r in ps and all(known(z) for z in ps))
            continue
        if not a:
            C.decide('duplicate:' + f, False, FIN, 'edges are merged only if their %s is equal: no such comparison' % f, decidable=all(x.op in ('eq', 'zero', 'is', 'more', 'fle', 'flt', 'feq', 'neg') for x in at) and not any(contains(x, lambda t: t.op == 'fld' and t.a[2] == f) for x in at))
            continue
        C.decide('duplicate:' + f, implies(dup, a[0]), FIN, 'edges are merged only if their %s is equal' % f)
        conj.append(a[0])
    # metrics: loop over all pairs
    m = [x for x in at if members_of(x, d.p) == {(prev, 'metrics'), (d.r, 'metrics')} and x.op in ('fle', 'flt', 'feq')]
    if not m:
        C.decide('duplicate:metrics', False, FIN, 'edges are merged only if their metrics are equal: no such comparison', decidable=not any(x.op not in ('fle', 'flt', 'feq', 'more') and contains(x, lambda t: t.op == 'fld' and t.a[2] == 'metrics') for x in at) and not any(x.op in ('any', 'all', 'phi', 'call') for x in at))
    else:
        rs = {t for x in m for t in subterms(x) if t.op == 'rng' and t is not None and any(t is y.a[1] for y in parts(x) if y.op == 'idx' and y.a[0].op == 'fld' and y.a[0].a[2] == 'metrics')}
        if len(rs) == 1:
            r = rs.pop()
            more_ = _atom(mk('more', r))
            A = m[0]
            bp = settle(E, E.back_pc.get((r.a[0], r.a[1]), TRUE))
            C.decide('duplicate:metrics', implies(AND(dup, more_), A), FIN, 'edges with a different metric are not merged', decidable=True)
            C.decide('duplicate:metrics-all', implies(bp, A), FIN, 'the comparison goes on to the next metric only if this one is equal')
            n = r.a[2]
            ls = {mk('len', fld_of(d.p, prev, 'metrics', E)), mk('len', fld_of(d.p, d.r, 'metrics', E))}
            C.decide('duplicate:metrics-range', n in ls or (n.op == 'minlen' and set(n.a) <= ls) or all(y in ls for y in alts(n)), FIN, 'all metrics are compared: %s' % show(n, 4), decidable=known(n, ('phi', 'swapped')))
            left = AND(keep, NOT(more_), *conj)
            C.decide('duplicate:merged', left is FALSE, FIN, 'edges equal in id, source, destination and metrics are merged', decidable=all(x in conj or x is more_ or x is A or x.op == 'more' or x.op == 'zero' and x.a[0].op == 'len' for x in atoms_of(left)))
        else:
            ps_ = {y.a[1] for x in m for y in subterms(x) if y.op == 'idx' and y.a[0].op == 'fld' and y.a[0].a[2] == 'metrics'}
            off = [t for t in ps_ if t.op == 'lin' and t.a[0] > 0 and len(t.a[1]) == 1 and t.a[1][0][0].op == 'rng' and t.a[1][0][1] == 1 and t.a[1][0][0].a[3] == '']
            C.decide('duplicate:metrics', False, FIN, 'all metrics are compared, but the positions start at %s' % show(list(ps_)[0], 4) if ps_ else '', decidable=bool(off) and len(ps_) == 1)


def fld_of(p, i, f, E):
    for t in p_subterms(E):
        if t.op == 'fld' and t.a[2] == f and t.a[0].op == 'idx' and t.a[0].a[0] is p and t.a[0].a[1] is i:
            return t
    return UNDEF


def p_subterms(E):
    m = getattr(E, '_allterms', None)
    if m is None:
        seen = set()
        m = []
        for t in list(E.back_pc.values()) + [x for q in E.phi_ops.values() for x in q if x is not None]:
            m += subterms(t, seen)
        E._allterms = m
    return m


def removed_positions(C, F, d, trunc):
    """the sequence of dropped positions; the array is shortened by their number"""
    E = F.E
    cands = [p for p in E.phi_ops if loopkey(p) == loopkey(d.p) and E.phi_ops[p][0] is not None and is_empty(E.phi_ops[p][0])]
    R = None
    for p in cands:
        g = grown(E, p)
        if g and all(len(ks) == 1 for ks, c, v in g[1]):
            R = p
            c = OR(*[c for ks, c, v in g[1]])
            vs = {counted(E, settle(E, x)) for ks, cc, v in g[1] for x in v}
            r = counted(E, settle(E, d.r))
            C.decide('removed:positions', vs == {r}, FIN, 'the recorded position is that of the dropped edge: %s' % ', '.join(show(x, 4) for x in vs), decidable=all(known(x, ('phi',)) for x in vs))
            dup, c = settle(E, d.dup), settle(E, c)
            C.decide('removed:exact', implies(dup, c) and AND(c, settle(E, d.keep)) is FALSE, FIN, 'a position is recorded iff the edge is dropped')
    if R is None:
        C.undec('removed', FIN, 'no record of the dropped positions')
    if trunc is not None:
        good = trunc is d.w
        if R is not None:
            good = good or trunc is isub(mk('len', d.p), mk('len', R))
            good = good or trunc is isub(mk('len', strip_order(d.init)), mk('len', R))
        C.decide('removed:truncated', good, FIN, 'the array is shortened by the dropped edges: %s' % show(trunc, 5), decidable=known(trunc, ('phi',)) and trunc.op in ('lin', 'c'))
    return R


def remap(C, F, d, R, D):
    """positions of replaced edges: old position -> position after sorting -> position after dropping"""
    E = F.E
    PS = fld(ARG0, GB, 'proto_shortcuts')
    if not C.has_field(GB, 'proto_shortcuts'):
        C.undec('shortcuts', FIN)
        return
    chain = [p for p in E.phi_ops if E.phi_ops[p][0] is PS]
    if len(chain) != 1:
        C.decide('shortcut:translated', False, FIN, 'the positions of replaced edges are translated after sorting', decidable=len(chain) == 0 and not any(E.phi_ops[p][0] is not None and E.phi_ops[p][0].op in ('collect', 'rv', 'mut') for p in E.phi_ops))
        return
    p = chain[0]
    i, n = E.phi_ops[p]
    bp = E.back_pc.get(loopkey(p), TRUE)
    for c, v in leaves(n, bp):
        if v is p:
            # only edges that are no shortcuts stay untouched
            at = [a for a in atoms_of(c) if a.op == 'is' and a.a[0].op == 'fld' and a.a[0].a[2] == 'sc_edges']
            C.decide('shortcut:every', any(implies(c, NOT(E.is_(a.a[0], OPTION, 'Some'))) for a in at), FIN, 'the entries of every shortcut are translated', decidable=True)
            continue
        if v.op != 'store' or v.a[0] is not p:
            C.undec('shortcut:translated', FIN, show(v, 4))
            continue
        k, w = v.a[1], v.a[2]
        C.decide('shortcut:slot', k.op == 'vfld' and k.a[0].op == 'fld' and k.a[0].a[2] == 'sc_edges', FIN, 'the translated entry belongs to the shortcut: %s' % show(k, 4), decidable=known(k, ('phi',)))
        ents = {}
        base = w
        while base.op == 'store':
            ents.setdefault(cint(base.a[1]), base.a[2])
            base = base.a[0]
        if base.op == 'agg' and base.a[0] == 'array' and not ents:
            ents = dict(enumerate(base.a[4]))
        if base.op == 'collect' and not ents:
            ents = {('all', base.a[0]): base.a[2]}
        for m in (0, 1):
            x = ents.get(m)
            if x is None:
                C.decide('shortcut:entry%d' % m, False, FIN, 'entry %d of a shortcut is translated' % m, decidable=base is idx(p, k) and all(isinstance(q, int) for q in ents))
                continue
            y = undrop(x)
            if y.op == 'idx' and y.a[0].op == 'phi':
                q = y.a[1]
                q = q.a[0] if q.op == 'fld' and q.a[2] == '0' else q
                good = q is idx(idx(p, k), I(m))
                C.decide('shortcut:entry%d' % m, good, FIN, 'entry %d of a shortcut is translated from %s' % (m, show(q, 3)), decidable=q.op == 'idx' and q.a[0] is idx(p, k) or contains(y.a[1], lambda t: t is idx(idx(p, k), I(1 - m))) and not contains(y.a[1], lambda t: t is idx(idx(p, k), I(m))))
                table(C, F, y.a[0], p)
            else:
                C.undec('shortcut:entry%d' % m, FIN, show(y, 4))
    # after dropping
    nxt = [q for q in E.phi_ops if E.phi_ops[q][0] is p and loopkey(q) != loopkey(p)]
    if R is None:
        return
    if len(nxt) != 1:
        C.decide('shortcut:corrected', False, FIN, 'the positions of replaced edges are corrected after dropping duplicates', decidable=len(nxt) == 0 and any(t is p for t in used(E, p)))
        return
    corrected(C, F, nxt[0], d, R)


def used(E, p):
    return [t for t in p_subterms(E) if t is p]


def table(C, F, tb, p):
    """table old position -> new position"""
    E = F.E
    i, n = E.phi_ops.get(tb, (None, None))
    if n is None or n.op != 'store' or n.a[0] is not tb:
        C.undec('shortcut:table', FIN, show(n, 4) if n is not None else '')
        return
    k, v = n.a[1], counted(E, settle(E, n.a[2]))
    m = member(k)
    if m is None:
        C.decide('shortcut:table', False, FIN, 'table[%s] = %s' % (show(k, 3), show(v, 3)), decidable=known(k) and k.op == 'rng')
        return
    C.decide('shortcut:table', m[2] == 'idx' and v is m[1], FIN, 'table[%s of edge at j] = %s' % (m[2], show(v, 3)), decidable=known(v, ('phi',)))
    C.decide('shortcut:table-sorted', m[0].op == 'sorted', FIN, 'the table maps to positions in the sorted array', decidable=m[0].op == 'phi')


def corrected(C, F, q, d, R):
    E = F.E
    # innermost value
    lv, chain = q, [q]
    g = E.phi_ops[q][1]
    seen = set()
    work, found = [(q, TRUE)], []
    while work:
        x, c0 = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n = E.phi_ops[x][1]
        bp = E.back_pc.get(loopkey(x), TRUE)
        for c, v in leaves(n, bp):
            if v.op == 'phi' and v in E.phi_ops and v not in seen:
                work.append((v, c))
            elif v.op == 'store':
                found.append((c, v))
            elif v.op != 'phi':
                C.undec('shortcut:corrected', FIN, show(v, 3))
                return
    if len(found) != 1:
        C.undec('shortcut:corrected', FIN, '%d stores' % len(found))
        return
    c, v = found[0]
    s, k, w = v.a
    if not (w.op == 'store' and w.a[0] is idx(s, k)):
        C.undec('shortcut:corrected', FIN, show(w, 3))
        return
    e, val = w.a[1], w.a[2]
    old = idx(idx(s, k), e)
    if val.op == 'with' and len(val.a[1]) == 1:
        val = val.a[1][0][1]
    old0 = [t for t in subterms(val) if t.op == 'fld' and t.a[0] is old] or [old]
    C.decide('shortcut:decrement', val is isub(old0[0], I(1)) or undrop(val) is isub(old0[0], I(1)), FIN, 'the position is decremented once per dropped edge: %s' % show(val, 4), decidable=contains(val, lambda t: t is old))
    C.decide('shortcut:decrement-both', e.op == 'rng' and (e.a[2] is mk('len', old.a[0]) or cint(e.a[2]) in (2, None)), FIN, 'both entries are corrected', decidable=cint(e) is not None)
    ra = [t for t in subterms(c) if t.op == 'idx' and t.a[0] is R]
    if len(set(ra)) != 1:
        C.undec('shortcut:decrement-when', FIN, show(c, 6))
        return
    rem = ra[0]
    at = [a for a in atoms_of(c) if contains(a, lambda t: t is rem)]
    good, und = True, len(at) != 1
    for a in range(4):
        for b in range(4):
            f = eval_lin(c, {rem: a, old0[0]: b})
            if any(contains(y, lambda t: t is rem) for y in atoms_of(f)):
                und = True
            elif (f is not FALSE) != (b >= a):
                good = False
    C.decide('shortcut:decrement-when', good and not und, FIN, 'a position is decremented iff the dropped position is not above it: %s' % (show(at[0], 6) if at else ''), decidable=not und)
    j = [t for t in subterms(rem.a[1]) if t.op == 'rng']
    if len(j) == 1:
        C.decide('shortcut:decrement-order', rem.a[1] is isub(isub(mk('len', R), I(1)), j[0]), FIN, 'dropped positions are handled in descending order: %s' % show(rem.a[1], 4), decidable=rem.a[1] is j[0])
        C.decide('shortcut:decrement-all', j[0].a[2] is mk('len', R), FIN, 'all dropped positions are handled: %s' % show(j[0].a[2], 4), decidable=known(j[0].a[2], ('phi',)))
    else:
        C.undec('shortcut:decrement-order', FIN, show(rem, 4))


def attach(C, F, D):
    """shortcut offsets: edge e is a shortcut iff it was parsed as one"""
    E = F.E
    so, se = F.base('sc_offsets'), F.base('sc_edges')
    if so is None or so.op != 'phi' or so not in E.phi_ops or E.phi_ops[so][1] is None:
        C.undec('sc_offsets', FIN, show(so, 4) if so is not None else '')
        return
    i, n = E.phi_ops[so]
    bp = E.back_pc.get(loopkey(so), TRUE)
    set_ = []
    while i.op == 'store':
        set_.append((i.a[1], i.a[2]))
        i = i.a[0]
    if n.op != 'store' or n.a[0] is not so or i.op != 'repeat':
        C.undec('sc_offsets', FIN, show(n, 4))
        return
    e, k = counted(E, n.a[1]), n.a[2]
    C.decide('sc_offsets:position', e.op == 'rng', FIN, 'the offset is stored for the current edge: %s' % show(e, 4), decidable=known(e, ('phi',)))
    g = grown(E, se) if se is not None else None
    if k not in E.phi_ops or g is None or len(g[1]) != 1 or len(g[1][0][2]) != 1 or cint(E.phi_ops[k][0]) is None:
        C.undec('sc_offsets:count', FIN, show(k, 4))
        return
    # the list of shortcuts with the edge they belong to
    sv = g[1][0][2][0]
    pc = g[1][0][1]
    if not (sv.op == 'fld' and sv.a[0].op == 'idx'):
        C.undec('sc_offsets:list', FIN, show(sv, 4))
        return
    L, pos = sv.a[0].a
    el = idx(L, pos)
    C.decide('sc_offsets:current', pos is k, FIN, 'the shortcut at the offset is taken: %s' % show(pos, 3), decidable=known(pos, ('phi',)))
    C.decide('sc_offsets:start', cint(E.phi_ops[k][0]) == 0, FIN, 'the first offset is 0')
    C.decide('sc_offsets:last', i.a[0] is mk('len', L), FIN, 'the offset after the last shortcut is their number: %s' % show(i.a[0], 4), decidable=known(i.a[0], ('phi',)) and i.a[0].op in ('c', 'len', 'lin'))
    for at, val in set_:
        if at is isub(i.a[1], I(1)):
            C.decide('sc_offsets:last', val is i.a[0] or val is mk('len', L), FIN, 'the last offset is set to %s before' % show(val, 4), decidable=cint(val) is not None)
    lens = {mk('len', D.S0), mk('len', D.S)}
    C.decide('sc_offsets:length', i.a[1] in {iadd(x, I(1)) for x in lens}, FIN, 'one offset more than edges: %s' % show(i.a[1], 4), decidable=known(i.a[1], ('phi',)))
    C.decide('sc_offsets:edges', e.op != 'rng' or e.a[2] in lens, FIN, 'every edge gets an offset: %s' % show(e.a[2], 3) if e.op == 'rng' else '', decidable=e.op == 'rng' and known(e.a[2], ('phi',)))
    mv = FALSE
    for c, v in leaves(E.phi_ops[k][1], bp):
        if v is iadd(k, I(1)):
            mv = OR(mv, c)
        elif v is not k:
            C.undec('sc_offsets:next', FIN, show(v, 3))
            return
    C.decide('sc_offsets:next', implies(pc, mv) and implies(mv, pc), FIN, 'the offset grows iff replaced edges are stored')
    owner = [t for t in subterms(pc) if t.op == 'fld' and t.a[0] is el and t is not sv]
    if len(set(owner)) != 1:
        C.undec('sc_offsets:owner', FIN, show(pc, 6))
        return
    o = owner[0]
    good, und = True, False
    for a in range(3):
        for b in range(a, 3):
            f = eval_lin(pc, {e: a, o: b})
            if any(contains(y, lambda t: t is o) for y in atoms_of(f)):
                und = True
            elif (f is not FALSE) != (a == b):
                good = False
    C.decide('sc_offsets:owner', good and not und, FIN, 'replaced edges are stored for exactly the edge they belong to', decidable=not und)
    # break only when all shortcuts are placed
    # the list itself
    gl = grown(E, L)
    if gl is None or len(gl[1]) != 1 or len(gl[1][0][2]) != 1 or gl[1][0][2][0].op != 'agg':
        C.undec('sc-list', FIN, show(L, 4))
        return
    ks, c, (v,) = gl[1][0]
    of, sf = o.a[2], sv.a[2]
    parts = dict(zip(v.a[3] or (), v.a[4])) if v.a[3] else {}
    parts = {**{str(q): w for q, w in enumerate(v.a[4])}, **parts}
    eo, es = parts.get(of), parts.get(sf)
    if eo is None or es is None:
        C.undec('sc-list', FIN, show(v, 4))
        return
    # number of edges before
    same = ks == D.rkeys
    q = eo
    ctr = q
    while ctr.op == 'phi' and ctr in E.phi_ops and E.phi_ops[ctr][0] is not None and E.phi_ops[ctr][0].op == 'phi':
        ctr = E.phi_ops[ctr][0]
    steps = E.phi_ops.get(q, (None, None))[1] if q.op == 'phi' else None
    good = q.op == 'phi' and steps is iadd(q, I(1)) and cint(E.phi_ops.get(ctr, (None,))[0]) == 0 if q.op == 'phi' and E.phi_ops.get(ctr, (None,))[0] is not None else False
    good = good or (eo.op == 'len' and strip_push(eo.a[0]) in (D.S0,))
    C.decide('sc-list:edge', good, FIN, 'a shortcut is listed with the position of its edge: %s' % show(eo, 4), decidable=q.op == 'lin' and any(t.op == 'phi' for t, kk in q.a[1]) or cint(q) is not None)
    m = es.op == 'idx' and es.a[1].op == 'vfld' and es.a[1].a[0].op == 'fld' and es.a[1].a[0].a[2] == 'sc_edges' and es.a[1].a[0].a[0] is D.X
    C.decide('sc-list:edges', m, FIN, 'a shortcut is listed with its own replaced edges: %s' % show(es, 4), decidable=False)
    if m:
        has = E.is_(es.a[1].a[0], OPTION, 'Some')
        bpx = E.back_pc.get(ks[-1], TRUE)
        C.decide('sc-list:total', implies(AND(bpx, has), c), FIN, 'every shortcut is listed')
        # translated and corrected positions are used
        src = es.a[0]
        C.decide('sc-list:translated', src.op == 'phi', FIN, 'the translated positions are used: %s' % show(src, 3), decidable=src.op == 'fld')


def strip_push(v):
    while v.op == 'push':
        v = v.a[0]
    return v


CHECKS = {'P14': p14, 'P15': p15}
