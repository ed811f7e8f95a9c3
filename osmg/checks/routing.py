"""Rules about the search for best paths: P19 (queries are independent), P20 (found paths are real), P21 (nothing cheaper
is overlooked: step rules), P22 (routing ends), P23 (unpacking of shortcuts)."""
from ..lib import *
from ..terms import _atom

CHECKS = {}
DJ = 'osmgraphing::routing::dijkstra::'
DIR = DJ + 'Direction'
DIJ = DJ + 'Dijkstra'
ALG = 'osmgraphing::configs::routing::RoutingAlgo'
BEST = DJ + 'Dijkstra::compute_best_path'
OPTION = 'core::option::Option'
GR = G + 'Graph'
STATE = ('costs', 'predecessors', 'queue', 'touched', 'is_visited', 'has_found_best_meeting_node')
ALGS = ('Dijkstra', 'CHDijkstra')
DIRS = (('FWD', 0, 'fwd'), ('BWD', 1, 'bwd'))


def sym(n):
    return mk('sym', n)


def field_of_phi(p):
    """the struct field a loop-carried memory cell belongs to"""
    m = re.search(r"\('f', '(\w+)', '[^']*Dijkstra'", str(p.a))
    return m.group(1) if m else None


def gfld(g, name):
    return fld(g, GR, name)


def opt_is(x, var='Some'):
    return cond(mk('is', x, OPTION, 'Some')) if var == 'Some' else NOT(cond(mk('is', x, OPTION, 'Some')))


def calls(t, name):
    return [x for x in subterms(t) if x.op == 'call' and x.a[0].endswith(name)]


class Search:
    """the parts of the search: state, main loop, relaxation loop, current node"""

    def __init__(self, C):
        self.C, self.ok = C, False
        E = self.E = C.run(BEST)
        self.why = None
        if E is None:
            return
        if not C.has_field(DIJ, 'costs', 'predecessors', 'queue'):
            C.undec('state', BEST, 'the state of a query has other fields')
            return
        # main loop: pops from the queue
        pops = []
        for k, b in E.back_pc.items():
            for x in calls(b, 'BinaryHeap::<T, A>::pop'):
                if x not in pops:
                    pops.append(x)
        pops = [x for x in pops if x.a[2] and x.a[2][0].op == 'phi' and x.a[2][0] in E.phi_ops]
        if len(pops) != 1:
            C.undec('main-loop', BEST, '%d loops take from a queue' % len(pops))
            return
        self.pop = pops[0]
        self.main = loopkey(self.pop.a[2][0])
        ds = [d for d in subjects(list(E.back_pc.values()) + [n for i, n in E.phi_ops.values() if n is not None], DIR) if contains(d, lambda t: t is self.pop)]
        if len(ds) != 1 or ds[0].op != 'fld':
            C.undec('direction', BEST, 'the direction of the current node is not recognised')
            return
        self.dir = ds[0]
        self.cn = self.dir.a[0]
        self.CN = self.dir.a[1]
        if not C.has_field(self.CN, 'idx', 'cost'):
            C.undec('cost-node', BEST, 'fields')
            return
        self.cidx = fld(self.cn, self.CN, 'idx')
        self.ccost = fld(self.cn, self.CN, 'cost')
        algs = [a for a in subjects(list(E.back_pc.values()) + [n for i, n in E.phi_ops.values() if n is not None], ALG)]
        self.alg = algs[0] if len(algs) == 1 else None
        if self.alg is None:
            C.undec('algorithm', BEST, 'the choice of the algorithm is not recognised (%d)' % len(algs))
            return
        # relaxation loop: updates the costs of the main loop
        self.M = {field_of_phi(p): p for p in E.phi_ops if loopkey(p) == self.main and field_of_phi(p)}
        inner = [loopkey(p) for p, (i, n) in E.phi_ops.items() if field_of_phi(p) == 'costs' and loopkey(p) != self.main and i is self.M.get('costs')]
        if len(inner) != 1 or not all(x in self.M for x in ('costs', 'predecessors', 'queue')):
            C.undec('relax-loop', BEST, '%d loops update costs' % len(inner))
            return
        self.relax = inner[0]
        self.R = {field_of_phi(p): p for p in E.phi_ops if loopkey(p) == self.relax and field_of_phi(p)}
        # best meeting
        bs = [p for p, (i, n) in E.phi_ops.items() if loopkey(p) == self.main and p not in self.M.values() and n is not None and i is not None and variant_of(i) == 'None']
        if len(bs) != 1:
            C.undec('best-meeting', BEST, '%d candidates' % len(bs))
            return
        self.best = bs[0]
        gs = {x.a[0] for x in subterms(E.phi_ops[self.R['costs']][1]) if x.op == 'fld' and x.a[1] == GR}
        if len(gs) != 1:
            C.undec('graph', BEST, '')
            return
        self.g = gs.pop()
        self.query = self.g.a[0] if self.g.op == 'fld' else None
        self.names = {self.best: sym('best')}
        for n, p in self.M.items():
            self.names[p] = sym(n)
        for n, p in self.R.items():
            self.names[p] = sym(n + "'")
        self.popped = vfld_some(self.pop)
        self.names[self.cn] = sym('current')
        self.u = None
        for x in parts(E.phi_ops[self.M['costs']][1]):
            if x.op == 'fld' and x.a[0] is self.cidx and x.a[2] == '0':
                self.u = x
        if self.u is None:
            C.undec('current', BEST, 'position of the current node')
            return
        self.memo = {}
        self.ok = True

    def spec(self, t, d=None, a=None, extra=None):
        """the value for one direction and one algorithm, loop-carried state being named"""
        key = (t.id, d, a)
        if extra is None and key in self.memo:
            return self.memo[key]
        E = self.E

        def f(x):
            if x.op == 'is':
                s = x.a[0]
                if s in self.rdir and d:
                    return B(x.a[2] == d)
                if s is self.alg and a:
                    return B(x.a[2] == a)
                if s is self.pop and x.a[2] == 'Some':
                    return TRUE
            if x.op == 'fle':
                return NOT(_atom(mk('flt', x.a[1], x.a[0])))
            if x.op == 'flt' and isc(x.a[1]) and cfloat(x.a[1]) == float('inf'):
                return NOT(_atom(mk('feq', x.a[1], x.a[0])))
            if extra is not None:
                return extra(x)
            return x
        self.rdir = {self.dir, fld(sym('current'), self.CN, 'direction')}
        r = rebuild(E, t, f, self.names)
        if extra is None:
            self.memo[key] = r
        return r

    def loops_at(self, k):
        return self.E.back_pc.get(k, TRUE)


def vfld_some(x):
    return mk('vfld', x, 'Some', '0')


def clear(c):
    """every test of the condition is understood"""
    return all(known(a, ('sym',)) for a in atoms_of(c))


def trichotomy(r):
    """of a<b, a=b and b<a at most one holds"""
    pairs = {}
    for a in atoms_of(r):
        if a.op in ('flt', 'feq'):
            pairs.setdefault(frozenset(a.a), []).append(a)
    for ps in pairs.values():
        for x in range(len(ps)):
            for y in range(x):
                r = AND(r, NOT(AND(_atom(ps[x]), _atom(ps[y]))))
    return r


def must(C, key, c, allowed, what, where=BEST, ok=True, K=None):
    """obligation: the condition implies the allowed one"""
    r = trichotomy(within(AND(c, NOT(allowed))))
    if r is FALSE:
        C.ok(key, where, what)
    else:
        C.decide(key, False, where, '%s, but also if %s' % (what, show(r, 7)), decidable=ok and (clear(r) or K is not None and clear(rebuild(K.S.E, r, pre=K.sums()))))


class Case:
    """the search for one direction and algorithm"""

    def __init__(self, S, d, i, x, alg):
        self.S, self.d, self.i, self.x, self.alg = S, d, i, x, alg
        E = S.E
        self.key = '%s:%s' % (alg, d)
        sp = lambda t: S.spec(t, d, alg)
        self.sp = sp
        cur = sym('current')
        self.u = rebuild(E, S.u, pre=S.names)
        self.c = rebuild(E, S.ccost, pre=S.names)
        self.cidx = rebuild(E, S.cidx, pre=S.names)
        self.cont = sp(S.loops_at(S.main))  # the main loop continues after the current node
        self.best = sym('best')
        self.has_best = opt_is(self.best)
        bt = vfld_some(self.best)
        self.bt = bt
        self.nxt = {n: sp(E.phi_ops[p][1]) for n, p in S.M.items()}
        self.bestn = sp(E.phi_ops[S.best][1])
        self.rn = {n: sp(E.phi_ops[p][1]) for n, p in S.R.items()}
        self.rback = sp(S.loops_at(S.relax))
        # nodes that are processed: the costs come out of the relaxation loop
        self.proc, self.skip = FALSE, FALSE
        self.odd = []
        for cc, v in leaves(self.nxt['costs'], self.cont):
            if v is sym("costs'"):
                self.proc = OR(self.proc, cc)
            elif v is sym('costs'):
                self.skip = OR(self.skip, cc)
            else:
                self.odd.append(v)
        self.K = lambda k: idx(idx(sym('costs'), I(k)), self.u)
        # costs of a path through the current node (an entry that is not outdated holds the costs of the node)
        tot = {}
        for a in (self.K(i), self.c):
            tot[mk('bin', 'Add', a, self.K(1 - i))] = tot[mk('bin', 'Add', self.K(1 - i), a)] = sym('total')
        self.bestn = rebuild(E, self.bestn, pre=tot)
        self.nxt = {n: rebuild(E, v, pre=tot) for n, v in self.nxt.items()}
        self.cont = rebuild(E, self.cont, pre=tot)
        self.rback = rebuild(E, self.rback, pre=tot)
        self.proc = rebuild(E, self.proc, pre=tot)
        self.skip = rebuild(E, self.skip, pre=tot)
        self.stale = OR(_atom(mk('flt', self.K(i), self.c)), FALSE)
        self.vis = lambda k: cond(idx(idx(sym('is_visited'), I(k)), self.u))
        # second part of the remembered meeting
        self.bcost = None
        for t in subterms(self.bestn) if self.bestn.op != 'c' else []:
            if t.op == 'fld' and t.a[0] is bt and t.a[2] == '1':
                self.bcost = t
        self.dominated = FALSE
        if self.bcost is not None:
            self.dominated = AND(self.has_best, OR(_atom(mk('flt', self.bcost, self.c)), _atom(mk('feq', self.bcost, self.c)), NOT(_atom(mk('flt', self.c, self.bcost)))))
        # alternatives of the same test with the value stored for the node
        self.rng = None
        for t in subterms(self.rn['costs']):
            if t.op == 'rng' and (t.a[0], t.a[1]) == S.relax and t.a[3] == '':
                self.rng = t
        self.more = _atom(mk('more', self.rng)) if self.rng is not None else None
        self.writes = self.stores('costs')

    def sums(self):
        """the costs of the edge that is relaxed, however they are summed (how is an obligation of its own)"""
        return {t: sym('sum') for c, k, w, v in self.writes[0] for t in subterms(v) if t.op == 'phi'}

    def stores(self, name):
        """[(condition, direction, node, value)] written by one relaxation, [conditions of none]"""
        out, none, odd = [], FALSE, []
        base = sym(name + "'")
        cont = TRUE if self.rback is None else self.rback
        for c, v in leaves(self.rn[name], cont):
            if v is base:
                none = OR(none, c)
                continue
            w = v
            if w.op == 'store' and w.a[0] is base:
                k, q = w.a[1], w.a[2]
                if q.op == 'store' and q.a[0] is idx(base, k):
                    out.append((c, k, q.a[1], q.a[2]))
                    continue
                if q.op == 'push' and q.a[0] is idx(base, k):
                    out.append((c, k, None, q.a[1]))
                    continue
            odd.append(v)
        return out, none, odd


def cases(S):
    return [Case(S, d, i, x, a) for a in ALGS for d, i, x in DIRS]


def edge_of(S, K):
    """(position in the forward order, head node) of the edge that is relaxed, if it runs through the leaving edges"""
    g = S.g
    off = gfld(g, K.x + '_offsets')
    if K.rng is None:
        return None
    p = idx(gfld(g, K.x + '_to_fwd_map'), iadd(idx(off, K.u), K.rng))
    return p, off


def position(j):
    """(counter, constant added to it)"""
    if j.op == 'lin' and len(j.a[1]) == 1 and j.a[1][0][1] == 1 and j.a[1][0][0].op == 'rng':
        return j.a[1][0][0], j.a[0]
    return j, 0


def num(t):
    """index wrappers are transparent"""
    while t.op == 'fld' and t.a[2] == '0':
        t = t.a[0]
    return undrop(t)


def relaxed(C, S, K, key):
    """the edge that is relaxed; reports whether all leaving edges of the current node are visited"""
    e = edge_of(S, K)
    where = BEST
    if e is None:
        C.undec(key + ':edges', where, 'no position in the leaving edges')
        return None
    p, off = e
    n = isub(idx(off, iadd(K.u, I(1))), idx(off, K.u))
    got = K.sp(K.rng.a[2])
    C.decide(key + ':edges', got is n, where, 'the leaving edges of the current node are visited: %s of them' % show(got, 7), decidable=known(got, ('sym',)))
    return p


# ------------------------------------------------------------------ P20
def p20(pid, tier):
    C = Check(pid, tier, 'a node is reached only via an edge leaving the node just taken from the queue, in the direction of that search: the predecessor written is the position of that edge, for the node at its far end, together with the costs; the path is put together by following the predecessors from the meeting node to both ends and names source and destination of the query')
    S = Search(C)
    if S.ok:
        for K in cases(S):
            reach(C, S, K)
        rebuilt(C, S)
        starts(C, S)
    return C.finish(min_ok=20)


def reach(C, S, K):
    key = 'reach:' + K.key
    p = relaxed(C, S, K, key)
    if p is None:
        return
    g = S.g
    ws, none, odd = K.stores('predecessors')
    cs, cnone, codd = K.writes
    if odd or codd or not ws or not cs:
        C.undec(key, BEST, 'writes %s' % [show(v, 4) for v in odd + codd])
        return
    arr = gfld(g, K.x + '_dsts')
    for c, k, w, v in ws:
        C.decide(key + ':direction', cint(k) == K.i, BEST, 'the predecessor is noted for the direction of the current node: %s' % show(k, 3), decidable=cint(k) is not None)
        if variant_of(v) is None:
            # alternatives: another edge than the one that is relaxed?
            for cc, y in leaves(v, c):
                if cc is not FALSE and variant_of(y) == 'Some':
                    q = num(y.a[4][0])
                    same = [a for a in atoms_of(cc) if a.op in ('eq', 'zero') and any(contains(a, lambda t: t is y1) and contains(a, lambda t: t is y2) and not contains(a, lambda t: t.op == 'idx' and y1 in map(num, t.a[1:])) for y1, y2 in ((num(p), q), (num(p).a[1] if num(p).op == 'idx' else p, q.a[1] if q.op == 'idx' else q)))]
                    if q is not num(p) and not same and known(q, ('sym',)):
                        C.viol(key + ':predecessor', BEST, 'the predecessor is the edge that is relaxed, but can be %s' % show(q, 8))
        if variant_of(v) != 'Some':
            C.decide(key + ':predecessor', False, BEST, 'a predecessor %s' % show(v, 4), decidable=variant_of(v) == 'None')
            continue
        q = num(v.a[4][0])
        C.decide(key + ':predecessor', q is num(p), BEST, 'the predecessor is the edge that is relaxed: %s' % show(q, 8), decidable=known(q, ('sym',)))
        head = num(w)
        want = [num(idx(arr, fld_like(q2))) for q2 in (p,)]
        ok = head.op == 'idx' and head.a[0] is arr and num(head.a[1]) is num(p)
        C.decide(key + ':head', ok, BEST, 'it is noted for the node at the end of the edge: %s' % show(head, 8), decidable=known(head, ('sym',)))
    wc = OR(*[c for c, k, w, v in ws])
    cc = OR(*[c for c, k, w, v in cs])
    ns = {(cint(k), num(w)) for c, k, w, v in ws}
    ms = {(cint(k), num(w)) for c, k, w, v in cs}
    C.decide(key + ':together', ns == ms, BEST, 'costs and predecessor are written for the same node', decidable=all(known(b, ('sym',)) for a, b in ns | ms))
    must(C, key + ':costs-with-predecessor', cc, wc, 'costs are written together with the predecessor', K=K)
    must(C, key + ':predecessor-with-costs', wc, cc, 'a predecessor is written together with the costs', K=K)


def fld_like(x):
    return x


def rebuilt(C, S):
    """the path is the forward half reversed followed by the backward half"""
    E = S.E
    fs = [(c, x) for c, x in leaves(E.ret, E.final.pc if E.final is not None else TRUE) if x is not UNDEF]
    none = OR(*[c for c, x in fs if variant_of(x) == 'None'])
    some = [(c, x) for c, x in fs if variant_of(x) == 'Some']
    if not some:
        C.undec('path', BEST, 'no path is returned')
        return
    B_ = opt_is(S.best)
    must(C, 'path:only-if-met', OR(*[c for c, x in some]), B_, 'a path is returned only if a meeting node was found', ok=True)
    for c, x in some:
        path = x.a[4][0]
        if path.op != 'agg' or path.a[2] != 'Path':
            C.undec('path:value', BEST, show(path, 3))
            continue
        fs_ = dict(zip(path.a[3], path.a[4]))
        q = S.query
        for end in ('src', 'dst'):
            want = mk('fld', q, S.g.a[1], end + '_idx')
            if end + '_idx' in fs_:
                got = fs_[end + '_idx']
                C.decide('path:' + end, got is want, BEST, 'the path names %s as its %s' % (show(got, 5), end), decidable=known(got, ('sym',)))
            if end + '_id' in fs_:
                got = fs_[end + '_id']
                ok = got.op == 'idx' and got.a[0] is gfld(S.g, 'node_ids') and num(got.a[1]) is num(want)
                C.decide('path:%s-id' % end, ok, BEST, 'the path names id %s as its %s' % (show(got, 6), end), decidable=known(got))
        if 'edges' in fs_:
            halves(C, S, fs_['edges'])


def walk(C, S, key, e, i, x, opp):
    """e: edges collected by following the predecessors of direction i; returns the value it started with"""
    E = S.E
    if e.op != 'phi' or e not in E.phi_ops:
        C.undec(key, BEST, 'edges of this half: %s' % show(e, 5))
        return None
    k = loopkey(e)
    init, nx = E.phi_ops[e]
    pred = S.M['predecessors']
    # the node: another value carried by the same loop
    curs = [p for p in E.phi_ops if loopkey(p) == k and p is not e]
    vs = [(c, v) for c, v in leaves(nx, E.back_pc.get(k, TRUE))]
    for c, v in vs:
        if v.op != 'push' or v.a[0] is not e:
            C.decide(key + ':every', False, BEST, 'an edge of the path is left out if %s' % show(c, 5), decidable=v is e and clear(rebuild(E, c, pre=S.names)) and all(a.op != 'phi' for a in atoms_of(c)))
            return None
        w = v.a[1]
        cur = [p for p in curs if contains(w, lambda t: t is p)]
        if len(cur) != 1:
            C.undec(key + ':node', BEST, show(w, 6))
            return None
        cur = cur[0]
        node = [t for t in subterms(w) if t.op == 'idx' and t.a[0].op == 'idx' and t.a[0].a[0] is pred and num(t.a[1]) is num(cur)]
        if not node:
            C.decide(key + ':edge', False, BEST, 'edge of the path: %s' % show(w, 8), decidable=known(rebuild(E, w, pre={**S.names, cur: sym('node')}), ('sym',)))
            return None
        d = node[0].a[0].a[1]
        C.decide(key + ':edge', cint(d) == i and num(w) is num(vfld_some(node[0])), BEST, 'the predecessor of the node in this direction is taken: %s' % show(w, 8), decidable=cint(d) is not None)
        i0, n0 = E.phi_ops[cur]
        bt = vfld_some(S.best)
        ok = num(i0).op == 'fld' and False
        st = num(i0)
        ok = st.op == 'vfld' and st.a[0] is S.best or contains(st, lambda t: t is S.best)
        C.decide(key + ':from-meeting', ok, BEST, 'it starts at the meeting node: %s' % show(st, 5), decidable=known(rebuild(E, st, pre=S.names), ('sym',)))
        for cc, nn in leaves(n0, E.back_pc.get(k, TRUE)):
            nn = num(nn)
            good = nn.op == 'idx' and nn.a[0] is gfld(S.g, opp + '_dsts') and num(nn.a[1]) is num(w)
            C.decide(key + ':step', good, BEST, 'the next node is the other end of the edge: %s' % show(nn, 8), decidable=known(rebuild(E, nn, pre={**S.names, cur: sym('node')}), ('sym',)))
        # the walk ends only where there is no predecessor
        more = opt_is(node[0])
        r = AND(B_of(S), more, NOT(E.back_pc.get(k, TRUE)))
        bad = [a for a in atoms_of(E.back_pc.get(k, TRUE)) if a.op != 'is' and contains(a, lambda t: t is cur or t is e)]
        C.decide(key + ':until-end', implies(E.back_pc.get(k, TRUE), more) and not bad, BEST, 'the walk ends at the node without predecessor: %s' % [show(b, 5) for b in bad], decidable=all(known(rebuild(E, b, pre={**S.names, cur: sym('node'), e: sym('edges')}), ('sym',)) for b in bad))
    return init


def B_of(S):
    return opt_is(S.best)


def halves(C, S, e):
    E = S.E
    init = walk(C, S, 'backward-half', e, 1, 'bwd', 'fwd')
    if init is None:
        # maybe the other way round
        return
    if init.op == 'ite':
        # reversed only sometimes: as good if the others have less than two edges
        lv = leaves(init, TRUE)
        rv = {v for c, v in lv if v.op == 'reversed'}
        x = next(iter(rv)).a[0] if len(rv) == 1 else None
        plain = OR(*[c for c, v in lv if v is x])
        if x is not None and all(v is x or v in rv for c, v in lv):
            r = [rebuild(E, plain, pre={mk('len', x): I(n)}) for n in range(2, 10)]
            C.decide('forward-half:reversed', all(q is FALSE for q in r), BEST, 'the forward half is left as it is if %s' % show(plain, 5), decidable=any(q is TRUE for q in r))
            if any(q is TRUE for q in r):
                return
            init = next(iter(rv))
    if init.op != 'reversed':
        C.decide('forward-half:reversed', False, BEST, 'the forward half is put into the order of the path: %s' % show(init, 4), decidable=init.op == 'phi' and init in E.phi_ops and field_of_phi(init) is None)
        return
    C.ok('forward-half:reversed', BEST, 'the edges of the forward half are reversed')
    i2 = walk(C, S, 'forward-half', init.a[0], 0, 'fwd', 'bwd')
    if i2 is not None:
        C.decide('forward-half:start', is_empty(i2), BEST, 'nothing comes before the forward half', decidable=i2.op == 'agg')


def start_of(S, t):
    """walks to the value at the start of the main loop"""
    return S.E.phi_ops[S.M[t]][0] if t in S.M else None


def starts(C, S):
    """no predecessor at the ends: predecessors are not written before the search"""
    i = start_of(S, 'predecessors')
    C.decide('start:no-predecessors', i.op == 'phi', BEST, 'source and destination have no predecessor at the start: %s' % show(i, 4), decidable=i.op == 'store')


CHECKS['P20'] = p20


# ------------------------------------------------------------------ P21
def refused(C, S):
    """no path is reported only if a weight is negative or the searches have not met"""
    E = S.E

    def weight(a):
        return contains(a, lambda t: t.op == 'fld' and t.a[2] == 'alphas')

    def sign(a):
        """(polarity on which a weight is refused, is zero among them) of a test of a weight"""
        if a.op == 'any' and isinstance(a.a[1], T):
            qs = [q for q in atoms_of(a.a[1]) if weight(q)]
            r = [sign(q) for q in qs]
            if len(qs) == 1 and r[0] is not None and implies(a.a[1], _atom(qs[0]) if r[0][0] else NOT(_atom(qs[0]))):
                return True, r[0][1]
            return None
        if a.op in ('flt', 'fle') and len(a.a) == 2:
            x, y = a.a
            if weight(x) and isc(y) and fconst(y) == 0.0:
                return True, a.op == 'fle'
            if weight(y) and isc(x) and fconst(x) == 0.0:
                return False, a.op == 'flt'
        return None
    for c, x in ret_under(E, TRUE):
        if variant_of(x) != 'None':
            continue
        ws = [a for a in atoms_of(c) if weight(a) and a.op != 'zero']
        sg = {a: sign(a) for a in ws}
        pos = AND(c, *[(NOT(_atom(a)) if r[0] else _atom(a)) if (r := sg[a]) else TRUE for a in ws])
        other = AND(pos, opt_is(S.best))
        # tests between the ends of the query, or of nothing but the query, before any search
        mine = [a for a in atoms_of(pos) if a.op in ('eq', 'zero', 'neg') and not any(t.op in ('phi', 'rng', 'call', 'len') for t in subterms(a)) and contains(a, lambda t: t.op == 'fld' and t.a[2] in ('src_idx', 'dst_idx'))]
        bad = [a for a in mine if AND(other, _atom(a)) is not FALSE or AND(other, NOT(_atom(a))) is not FALSE]
        C.decide('none:other', other is FALSE, BEST, 'no path is reported although both searches could meet: %s' % show(other, 6), decidable=bool(bad) and all(sg[a] for a in ws))
        for a in ws:
            r = sg[a]
            if r is None:
                C.undec('none:weights', BEST, show(a, 5))
            else:
                C.decide('none:weights', not r[1], BEST, 'only negative weights are refused, not those of zero: %s' % show(a, 6))


def p21(pid, tier):
    C = Check(pid, tier, 'each step of the bidirectional search keeps every cheaper alternative: the search stops only when the queue is empty, both directions are finished or the current node is dearer than the best meeting; a node is skipped only if its entry is outdated or dearer than the best meeting; every leaving edge is tried (edges to less important nodes are left out only in contracted graphs, the leaving edges being sorted by that importance); improved costs are stored and queued; meetings are compared by the sum of both costs; the queue yields the cheapest entry first')
    S = Search(C)
    if S.ok:
        started(C, S)
        for K in cases(S):
            step(C, S, K)
        refused(C, S)
    ordering(C)
    return C.finish(min_ok=50)


def cost_of_edge(C, S, K, p, v, key):
    """v: new costs of the head of edge p; must be the current costs plus the weighted sum of the metrics of the edge"""
    E = S.E
    if v.op != 'bin' or v.a[0] != 'Add':
        C.decide(key, False, BEST, 'new costs %s' % show(v, 7), decidable=known(v, ('sym',)))
        return
    rest = [t for t in v.a[1:3] if t is not K.c]
    if len(rest) != 1:
        C.decide(key, False, BEST, 'new costs %s' % show(v, 7), decidable=known(v, ('sym',)))
        return
    s = rest[0]
    if s.op == 'phi' and s in E.phi_ops:
        i, n = E.phi_ops[s]
        C.decide(key + ':start', fconst(i) == 0.0, BEST, 'the sum of an edge starts with %s' % show(i, 2), decidable=isc(i))
        n = K.sp(n)
        bp = K.sp(E.back_pc.get(loopkey(s), TRUE))
        for c, x in leaves(n, bp):
            q = x
            acc = K.sp(s)
            ok = q.op == 'bin' and q.a[0] == 'Add' and acc in q.a[1:3]
            t = [y for y in q.a[1:3] if y is not acc] if ok else []
            ok = ok and len(t) == 1 and weighted(C, K, p, t[0], key)
            xx = rebuild(E, x, pre={acc: sym('sum')})
            C.decide(key, ok, BEST, 'the weighted metrics of the edge are added to the current costs: %s' % show(x, 9), decidable=known(xx, ('sym',)))
    elif s.op == 'sum':
        r, extra, i, x = s.a
        C.decide(key + ':start', fconst(i) == 0.0, BEST, 'the sum of an edge starts with %s' % show(i, 2), decidable=isc(i))
        C.decide(key + ':every', extra is TRUE, BEST, 'columns are left out unless %s' % show(extra, 5), decidable=clear(extra))
        ok = weighted(C, K, p, x, key)
        C.decide(key, ok, BEST, 'the weighted metrics of the edge are added to the current costs: %s' % show(x, 9), decidable=known(x, ('sym',)))
    else:
        C.decide(key, False, BEST, 'new costs %s' % show(v, 7), decidable=known(s, ('sym',)))


def weighted(C, K, p, t, key):
    """is t the product of a weight and the same metric of the edge at position p?"""
    if not (t.op == 'bin' and t.a[0] == 'Mul'):
        return False
    f, h = t.a[1:3]
    al = [y for y in (f, h) if y.op == 'idx' and y.a[0].op == 'fld' and y.a[0].a[2] == 'alphas']
    me = [y for y in (f, h) if y.op == 'idx' and y.a[0].op == 'idx' and contains(y, lambda z: z.op == 'fld' and z.a[2] == 'metrics')]
    ok = len(al) == 1 and len(me) == 1 and al[0].a[1] is me[0].a[1] and num(me[0].a[0].a[1]) is num(p)
    if ok:
        r = al[0].a[1]
        C.decide(key + ':all', r.op == 'rng' and covers(r.a[2], al[0].a[0], me[0].a[0]), BEST, 'all columns are summed: %s' % show(r.a[2], 5) if r.op == 'rng' else show(r, 5), decidable=r.op == 'rng' and known(K.sp(r.a[2]), ('sym',)))
    return ok


def covers(n, a, m):
    """is n the number of columns?"""
    if n.op == 'minlen':
        ns = [x for x in n.a]
    else:
        ns = [n]
    fl = []
    for x in ns:
        fl += leafset(x)
    return all(x.op == 'len' and (x.a[0] is a or x.a[0] is m or x.a[0].op == 'idx' and x.a[0].a[0] is m.a[0]) or x.op == 'fld' and x.a[2] == 'dim' for x in fl)


def fconst(x):
    return cfloat(x) if isc(x) and x.a[0] == 'float' else None


def level(S, n):
    return idx(gfld(S.g, 'node_ch_levels'), n)


def step(C, S, K):
    E = S.E
    key = 'step:' + K.key
    ch = K.alg == 'CHDijkstra'
    i, j = K.i, 1 - K.i
    g = S.g
    if K.odd:
        C.undec(key, BEST, 'costs after a node: %s' % [show(v, 4) for v in K.odd])
        return
    if K.proc is FALSE:
        C.undec(key, BEST, 'no node is processed')
        return
    p = relaxed(C, S, K, key)
    if p is None:
        return
    flags = cond(idx(sym('has_found_best_meeting_node'), I(0))), cond(idx(sym('has_found_best_meeting_node'), I(1)))
    both = AND(*flags)
    entered = reach_main(S, K)
    # 1. the end of the search
    must(C, key + ':stop', AND(entered, NOT(K.cont)), OR(both, K.dominated), 'the search stops before the queue is empty only if both directions are finished or the current node is dearer than the best meeting', K=K)
    # flags
    if 'has_found_best_meeting_node' in K.nxt:
        base = sym('has_found_best_meeting_node')
        for c, v in leaves(K.nxt['has_found_best_meeting_node'], K.cont):
            if v is base:
                continue
            w, vals = v, []
            while w.op == 'store':
                vals.append((w.a[1], w.a[2]))
                w = w.a[0]
            if w is not base:
                if v.op == 'agg' and v.a[0] == 'array':
                    vals = [(I(n), x) for n, x in enumerate(v.a[4]) if x is not idx(base, I(n))]
                else:
                    C.undec(key + ':finished', BEST, show(v, 4))
                    continue
            for k, x in vals:
                tr = AND(c, cond(x))
                must(C, key + ':finished', tr, K.dominated, 'a direction is finished only if the current node is dearer than the best meeting', K=K)
    # 2. skipped nodes
    allowed = OR(K.stale, K.dominated)
    if not ch:
        allowed = OR(allowed, K.vis(i))
    must(C, key + ':skip', K.skip, allowed, 'a node is skipped only if its entry is outdated or dearer than the best meeting', K=K)
    # 3. meetings
    if K.bcost is not None or K.bestn is not sym('best'):
        total = [sym('total')]
        take, keep = FALSE, FALSE
        for c, v in leaves(K.bestn, K.cont):
            if v is sym('best'):
                keep = OR(keep, c)
                continue
            take = OR(take, c)
            val = v.a[4][0] if variant_of(v) == 'Some' and v.op == 'agg' else None
            if val is None or val.op != 'agg' or len(val.a[4]) != 2:
                C.decide(key + ':meeting', False, BEST, 'the best meeting becomes %s' % show(v, 4), decidable=variant_of(v) == 'None')
                continue
            node, cost = val.a[4]
            C.decide(key + ':meeting-node', num(node) is num(K.cidx), BEST, 'the meeting node is the current node: %s' % show(node, 5), decidable=known(node, ('sym',)))
            C.decide(key + ':meeting-costs', cost in total, BEST, 'the costs of a meeting are those of both directions: %s' % show(cost, 6), decidable=known(cost, ('sym',)))
        better = OR(*[_atom(mk('flt', t, K.bcost)) for t in total]) if K.bcost is not None else FALSE
        worse = OR(*[_atom(mk('flt', K.bcost, t)) for t in total]) if K.bcost is not None else FALSE
        fin = NOT(OR(*[_atom(mk('feq', F(float('inf')), t)) for t in (K.K(j),)]))
        met = fin if ch else K.vis(j)
        if K.bcost is not None:
            must(C, key + ':better-meeting', AND(K.proc, K.has_best, better, keep), FALSE, 'a cheaper meeting replaces the known one', K=K)
            must(C, key + ':worse-meeting', AND(take, K.has_best, worse), FALSE, 'a dearer meeting never replaces the known one', K=K)
        else:
            C.decide(key + ':better-meeting', False, BEST, 'meetings are never compared by their costs', decidable=known(K.bestn, ('sym',)))
        must(C, key + ':first-meeting', AND(K.proc, NOT(K.has_best), met, keep), FALSE, 'the first meeting is remembered', K=K)
        # 4. what counts as a first meeting
    # 5. leaving edges
    if K.more is not None:
        lu = level(S, K.u)
        head = [w for c, k, w, v in K.writes[0]]
        up = FALSE
        if head:
            lw = level(S, head[0])
            up = NOT(ineg(isub(isub(lu, lw), I(1)))) if ch else FALSE
        ent = AND(entered, K.cont, K.proc, K.more)
        brk = AND(ent, NOT(K.rback))
        must(C, key + ':all-edges', brk, up, 'the leaving edges are tried until the first one to a less important node' if ch else 'all leaving edges are tried', K=K)
        if ch and brk is not FALSE:
            importance(C, K)
        # 6. improvements
        ws, none, odd = K.writes
        if odd or not ws:
            C.undec(key + ':improve', BEST, '%s' % [show(v, 4) for v in odd])
            return
        imp = None
        for c, k, w, v in ws:
            ok = num(w).op == 'idx' and num(w).a[0] is gfld(g, K.x + '_dsts') and num(num(w).a[1]) is num(p)
            C.decide(key + ':head', ok and cint(k) == i, BEST, 'costs are stored for the far end of the edge: %s' % show(w, 6), decidable=known(w, ('sym',)))
            cost_of_edge(C, S, K, p, v, key + ':costs')
            old = idx(idx(sym("costs'"), k), w)
            imp = _atom(mk('flt', v, old))
            le = NOT(_atom(mk('flt', old, v)))
            must(C, key + ':store-if-better', AND(c, NOT(imp)), FALSE if False else AND(le, _atom(mk('feq', v, old))), 'costs are stored only if they are lower', K=K)
        must(C, key + ':better-stored', AND(none, imp), up, 'lower costs are always stored', K=K)
        # 7. queueing
        if 'queue' not in K.rn:
            C.decide(key + ':queued', False, BEST, 'improved nodes are not queued', decidable=False)
            return
        base = sym("queue'")
        push, rest = FALSE, FALSE
        for c, v in leaves(K.rn['queue'], K.rback):
            if v is base:
                rest = OR(rest, c)
                continue
            cs = calls(v, 'BinaryHeap::<T, A>::push') if v.op == 'mut' else []
            if v.op != 'mut' or not v.a[0].a[0].endswith('BinaryHeap::<T, A>::push'):
                C.undec(key + ':queued', BEST, show(v, 4))
                return
            push = OR(push, c)
            el = v.a[0].a[2][1]
            if el.op == 'agg' and el.a[2] == 'Reverse':
                el = el.a[4][0]
            if el.op == 'agg' and el.a[1] == S.CN:
                fs = dict(zip(el.a[3], el.a[4]))
                C.decide(key + ':queued-node', num(fs['idx']) is num(ws[0][2]), BEST, 'the improved node is queued: %s' % show(fs['idx'], 6), decidable=known(fs['idx'], ('sym',)))
                vals = {x[3] for x in ws}
                if S.E.phi_ops.get(fs['cost']) is None:
                    C.decide(key + ':queued-costs', fs['cost'] in vals or fs['cost'] is idx(idx(sym("costs'"), I(i)), ws[0][2]), BEST, 'with its new costs: %s' % show(fs['cost'], 6), decidable=known(rebuild(S.E, fs['cost'], pre={s: sym('sum') for s in subterms(fs['cost']) if s.op == 'phi'}), ('sym',)))
                dd = fs['direction']
                C.decide(key + ':queued-direction', dd is fld(sym('current'), S.CN, 'direction') or variant_of(dd) == K.d, BEST, 'in the direction of the current node: %s' % show(dd, 4), decidable=known(dd, ('sym',)))
            else:
                C.undec(key + ':queued-node', BEST, show(el, 5))
        lost = AND(imp, rest, NOT(up))
        if ch:
            must(C, key + ':queued', lost, FALSE, 'every improved node is queued', K=K)
        else:
            must(C, key + ':queued', lost, OR(K.has_best, K.vis(j)), 'every improved node is queued until the directions have met', K=K)
            if K.bestn is not sym('best'):
                tk = OR(*[c for c, v in leaves(K.bestn, K.cont) if v is not sym('best')])
                if lost is FALSE:
                    must(C, key + ':meeting-certain', AND(tk, NOT(K.has_best)), OR(K.vis(j), fin), 'a meeting node is reached from both sides', K=K)
                else:
                    must(C, key + ':meeting-certain', AND(tk, NOT(K.has_best)), K.vis(j), 'the search narrows only after a node was taken from the queue in both directions', K=K)
        if ch and K.bestn is not sym('best'):
            tk = OR(*[c for c, v in leaves(K.bestn, K.cont) if v is not sym('best')])
            must(C, key + ':meeting-certain', AND(tk, NOT(K.has_best)), fin, 'a meeting node is reached from both sides', K=K)
    # 8. visited
    if not ch and 'is_visited' in K.nxt:
        base = sym('is_visited')
        marked = FALSE
        for c, v in leaves(K.nxt['is_visited'], K.cont):
            if v is base:
                continue
            ok = v.op == 'store' and v.a[0] is base and cint(v.a[1]) == i and v.a[2].op == 'store' and v.a[2].a[0] is idx(base, I(i)) and num(v.a[2].a[1]) is num(K.u) and v.a[2].a[2] is TRUE
            C.decide(key + ':visited', ok, BEST, 'the current node is marked in its direction: %s' % show(v, 6), decidable=known(v, ('sym', 'store')))
            marked = OR(marked, c)
        must(C, key + ':visited-if-processed', marked, NOT(K.stale), 'only current entries mark a node', K=K)
        must(C, key + ':processed-visited', K.proc, marked, 'a processed node is marked', K=K)


def reach_main(S, K):
    """condition under which an entry is taken from the queue (iteration of the main loop entered)"""
    c = K.cont
    # conditions outside of the loop: those tests of the continuation that do not depend on the state
    r = TRUE
    for a in atoms_of(c):
        if not any(x.op == 'sym' for x in subterms(a)):
            if implies(c, a):
                r = AND(r, a)
            elif implies(c, NOT(a)):
                r = AND(r, NOT(a))
    return r


def started(C, S):
    """both ends start with costs 0 and are queued"""
    E = S.E
    q = start_of(S, 'queue')
    els = []
    v = q
    while v is not None and v.op == 'mut' and v.a[0].a[0].endswith('BinaryHeap::<T, A>::push'):
        el = v.a[0].a[2][1]
        if el.op == 'agg' and el.a[2] == 'Reverse':
            el = el.a[4][0]
        els.append(el)
        v = v.a[0].a[2][0]
    if len(els) != 2 or not all(e.op == 'agg' and e.a[1] == S.CN for e in els):
        C.decide('start:queue', False, BEST, 'the queue starts with both ends: %s' % show(q, 4), decidable=len(els) < 2 and all(e.op == 'agg' for e in els) and is_empty(v))
        return
    C.decide('start:queue-empty', is_empty(v), BEST, 'nothing else is queued: %s' % show(v, 4), decidable=v.op == 'phi' or v.op == 'fld')
    costs = start_of(S, 'costs')
    seen = {}
    for e in els:
        fs = dict(zip(e.a[3], e.a[4]))
        d = variant_of(fs['direction'])
        end = {'FWD': 'src_idx', 'BWD': 'dst_idx'}.get(d)
        if end is None:
            C.undec('start:direction', BEST, show(e, 5))
            continue
        seen[d] = 1
        want = mk('fld', S.query, S.g.a[1], end)
        C.decide('start:%s:node' % d, fs['idx'] is want, BEST, 'the %s search starts at %s' % (d, show(fs['idx'], 4)), decidable=known(fs['idx']))
        C.decide('start:%s:costs' % d, fconst(fs['cost']) == 0.0, BEST, 'with costs %s' % show(fs['cost'], 3), decidable=isc(fs['cost']))
        i = dict((a, b) for a, b, c in DIRS)[d]
        x = E.index(E.index(costs, I(i)), mk('fld', want, S.u.a[1], '0'))
        C.decide('start:%s:known' % d, fconst(x) == 0.0, BEST, 'the costs of the start are noted: %s' % show(x, 6), decidable=isc(x) or known(rebuild(E, x, pre={p: sym('reset') for p in E.phi_ops}), ('sym',)))
    C.decide('start:both', set(seen) == {'FWD', 'BWD'}, BEST, 'both directions are started: %s' % sorted(seen))


def importance(C, K):
    """leaving the loop early needs edges that are sorted by the importance of their far end, most important first"""
    from .building import Fin, Edges, order_of_forward, offsets, sort_of, reverse_of
    if getattr(C, '_imp', None) is None:
        C._imp = {}
        F = Fin(C)
        if F.ok:
            D = Edges(C, F)
            seq = order_of_forward(C, F, D)
            if seq is not None:
                C._imp['fwd'] = F.E.phi_ops[seq][0] if seq.op == 'phi' and seq in F.E.phi_ops else seq
            r = offsets(C, F, D, 'bwd', 'destination', 'dst_idx')
            if r is not None:
                C._imp['bwd'] = r[0]
    if K.x in C._imp:
        v = C._imp.pop(K.x)
        end = {'fwd': 'dst_idx', 'bwd': 'src_idx'}[K.x]
        key = 'importance:' + K.x
        s = sort_of(v)
        if s is None:
            C.undec(key, BEST, 'the order of the edges is not recognised: %s' % show(v, 4))
            return
        cont, ks, el = s
        if len(ks) < 2:
            C.decide(key, False, BEST, 'the leaving edges are not sorted by importance', decidable=all(known(k, ('phi',)) for k in ks))
            return
        k = ks[1]
        r = reverse_of(k)
        ok = r is not None and r.op == 'idx' and r.a[0].op == 'fld' and r.a[0].a[2] == 'node_ch_levels' and contains(r.a[1], lambda t: t.op == 'fld' and t.a[0] is el and t.a[2] == end)
        C.decide(key, ok, 'osmgraphing::network::graph::building', 'the leaving edges are sorted by the descending level of their far end: %s' % show(k, 6), decidable=known(k, ('phi',)))


def ordering(C):
    """the queue yields the entry with the lowest costs"""
    for tr, m in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
        fs = [f for f in C.P.fns.values() if f['path'].endswith('::' + m) and 'core::cmp::%s for' % tr in f['path'] and f['path'].endswith('CostNode>::' + m) or f['path'] == '<%sCostNode as core::cmp::%s>::%s' % (DJ, tr, m)]
        if len(fs) != 1:
            C.undec('order:' + tr, DJ, '%d implementations' % len(fs))
            continue
        f = fs[0]
        E = C.run(f)
        if E is None:
            continue
        cn = DJ + 'CostNode'
        a, b = [fld(mk('arg', k), cn, 'cost') for k in (0, 1)]
        rev_elem = True
        for word, less in (('lower', True), ('higher', False)):
            def pre_f(x):
                if x.op == 'fle' and contains(x, lambda t: t.op == 'call' and t.a[0].endswith('::abs')):
                    return FALSE
                if x.op == 'feq' and set(x.a) == {a, b}:
                    return FALSE
                if x.op in ('flt', 'fle') and set(x.a) == {a, b}:
                    return B((x.a[0] is a) == less)
                if x.op == 'call' and x.a[0].endswith('partial_cmp') and set(map(num, x.a[2])) == {a, b}:
                    return ordv((num(x.a[2][0]) is a) == less, True)
                if x.op == 'call' and (x.a[0].endswith('::cmp') or x.a[0].endswith('total_cmp')) and set(map(num, x.a[2])) == {a, b}:
                    return ordv((num(x.a[2][0]) is a) == less, False)
                if x.op == 'pcmp' and set(x.a[:2]) == {a, b}:
                    return ordv((x.a[0] is a) == less, True)
                return x
            def others(x):
                # a comparison of other fields
                return x.op in ('call', 'cmp', 'pcmp') and str(x.a[0]).endswith('cmp') and not contains(x, lambda t: t is a or t is b or t.op in ('phi', 'any', 'all')) and all(num(y).op == 'fld' for y in (x.a[2] if x.op == 'call' else x.a[1:3]))
            r = rebuild(E, E.ret, pre_f)
            if m == 'partial_cmp' and variant_of(r) == 'Some' and r.op == 'agg':
                r = r.a[4][0]
            want = 'Less' if less else 'Greater'
            got = {variant_of(x) for x in leafset(r)}
            C.decide('order:%s:%s' % (tr, word), got == {want}, f['path'], 'an entry with %s costs is %s' % (word, sorted(map(str, got))), decidable=all(variant_of(x) in ('Less', 'Greater', 'Equal') or others(x) for x in leafset(r)))


def ordv(less, opt):
    o = mk('agg', 'adt', 'core::cmp::Ordering', 'Less' if less else 'Greater', (), ())
    return mk('agg', 'adt', OPTION, 'Some', ('0',), (o,)) if opt else o


CHECKS['P21'] = p21


# ------------------------------------------------------------------ P19
DEFAULT = {'costs': 'infinite costs', 'predecessors': 'no predecessor', 'is_visited': 'not visited'}


def is_default(name, x):
    if name == 'costs':
        return fconst(x) == float('inf')
    if name == 'predecessors':
        return variant_of(x) == 'None'
    return x is FALSE


class Entry:
    """state of a query at the start of the search, followed back to the state left by the previous query"""

    def __init__(self, C, S):
        self.C, self.S, self.E = C, S, S.E
        E = S.E
        self.old = mk('arg', 0)
        self.dirvars = [d for d in subjects([n for i, n in E.phi_ops.values() if n is not None], DIR) if d.op == 'idx' and d.a[0].op == 'agg' and d.a[1].op == 'rng']

    def spec(self, t, d, alg):
        S = self.S

        def f(x):
            if x.op == 'is' and x.a[0] in self.dirvars:
                return B(x.a[2] == d)
            if x.op == 'is' and x.a[0] is S.alg:
                return B(x.a[2] == alg)
            return x
        return rebuild(self.E, t, f)

    def both(self, v):
        """the loop over the directions visits both"""
        return {variant_of(x) for x in v.a[0].a[4]} >= {'FWD', 'BWD'} and cint(v.a[1].a[2]) is not None and cint(v.a[1].a[2]) >= len(v.a[0].a[4])

    def at(self, name, d, k, alg):
        """value of the field for direction k at the start of the search: (value, dir of the iteration that wrote it)"""
        E = self.E
        return E.index(self.spec(start_of(self.S, name), d, alg), I(k))

    def unfold(self, v, name, d, k, alg):
        """one step back through the loop over the directions"""
        E = self.E
        if v.op == 'idx' and v.a[0].op == 'phi' and v.a[0] in E.phi_ops and cint(v.a[1]) == k:
            p = v.a[0]
            dv = [x for x in self.dirvars if loopkey(x.a[1]) == loopkey(p)]
            if dv:
                other = 'BWD' if d == 'FWD' else 'FWD'
                n = self.spec(E.phi_ops[p][1], d, alg)
                o = self.spec(E.phi_ops[p][1], other, alg)
                ws = self.written(o, other, alg)
                if ws is None or any(w == k for w in ws):
                    return None
                return [(E.index(x, I(k)), p) for x in alts(n)]
        return None

    def written(self, t, d, alg):
        """directions written by one iteration"""
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'ite':
                st += [x.a[1], x.a[2]]
            elif x.op == 'store':
                if cint(x.a[1]) is None:
                    return None
                out.add(cint(x.a[1]))
                st.append(x.a[0])
            elif x.op == 'phi' and x in self.E.phi_ops and x not in self.S.M.values() and loopkey(x) not in [loopkey(d.a[1]) for d in self.dirvars]:
                i, n = self.E.phi_ops[x]
                st.append(self.spec(i, d, alg))
                if n is not None:
                    st.append(self.spec(n, d, alg))
        return out


def p19(pid, tier):
    C = Check(pid, tier, 'the reused state of a search is reset before the next one: every cell written is noted as touched under the same condition, all touched cells get their initial value before the next search, the arrays get the size of the graph of the query, the queue, the list of touched cells and the flags are emptied, visited marks are cleared when they are read; nothing else of the previous state is read')
    S = Search(C)
    if S.ok:
        N = Entry(C, S)
        for alg in ALGS:
            for d, k, x in DIRS:
                fresh(C, S, N, d, k, alg)
        noted(C, S)
        q = start_of(S, 'queue')
        while q.op == 'mut' and q.a[0].a[0].endswith('BinaryHeap::<T, A>::push'):
            q = q.a[0].a[2][0]
        raw = contains(q, lambda t: t is N.old)
        C.decide('queue', is_empty(q) or q.op == 'call' and q.a[0].endswith('::new'), BEST, 'the queue holds nothing of an earlier query: %s' % show(q, 4), decidable=raw)
        direct(C, S, N)
    created(C)
    return C.finish(min_ok=20)


def noted(C, S):
    """every cell of the state that is written is noted"""
    if 'touched' not in S.R:
        relies = any(k.endswith(':touched') for k in C.keys('reset:'))
        C.decide('noted', False, BEST, 'the cells written by a search are not noted, although only noted cells are reset', decidable=relies)
        return
    for K in cases(S):
        ts, none, odd = K.stores('touched')
        if odd:
            C.undec('noted:' + K.key, BEST, show(odd[0], 4))
            continue
        for n in ('costs', 'predecessors'):
            ws, _, o2 = K.stores(n)
            if o2 or not ws:
                C.undec('noted:%s:%s' % (K.key, n), BEST, '')
                continue
            for c, k, w, v in ws:
                t = OR(*[tc for tc, tk, _, tv in ts if cint(tk) == cint(k) and num(tv) is num(w)], FALSE)
                good = all(known(b, ('sym',)) for a, tk, _, tv in ts for b in (tk, tv)) and known(w, ('sym',))
                must(C, 'noted:%s:%s' % (K.key, n), c, t, 'a cell written is noted as touched', ok=good, K=K)
        if K.odd:
            C.undec('noted:%s:else' % K.key, BEST, '')
    t = start_of(S, 'touched')
    for d, k, x in DIRS:
        for n in ('costs', 'predecessors'):
            v = S.E.index(start_of(S, n), I(k))
            while v.op == 'store':
                w = v.a[1]
                tv = S.E.index(t, I(k))
                ok = False
                while tv.op == 'push':
                    ok = ok or num(tv.a[1]) is num(w)
                    tv = tv.a[0]
                C.decide('noted:start:%s:%s' % (n, d), ok, BEST, 'the start of the search is noted as touched', decidable=tv.op in ('idx', 'agg'))
                v = v.a[0]


def fresh(C, S, N, d, k, alg):
    E = S.E
    size = mk('len', gfld(S.g, 'node_ids'))
    where = DIJ + '::init_query'
    read = set()
    for K in cases(S):
        if K.alg == alg:
            for t in list(K.nxt.values()) + list(K.rn.values()) + [K.cont, K.rback, K.bestn]:
                read |= {x.a[0] for x in subterms(t) if x.op == 'sym'}
    for name in ('costs', 'predecessors', 'is_visited', 'has_found_best_meeting_node', 'touched'):
        if name not in S.M:
            continue
        key = 'reset:%s:%s:%s' % (name, alg, d)
        if name == 'is_visited':
            # read to decide anything?
            rd = False
            for K in cases(S):
                if K.alg == alg:
                    for n, t in list(K.nxt.items()) + list(K.rn.items()) + [('c', K.cont), ('b', K.rback), ('m', K.bestn)]:
                        if n == 'is_visited':
                            t = OR(*[c for c, v in leaves(t, K.cont)]) if False else None
                        if t is not None and contains(t, lambda z: z is sym('is_visited')):
                            rd = True
            if not rd:
                C.ok(key, where, 'visited marks are not read')
                continue
        v = N.at(name, d, k, alg)
        back(C, S, N, v, name, d, k, alg, key, size, where, 0)


def back(C, S, N, v, name, d, k, alg, key, size, where, depth):
    E = S.E
    arr = name in DEFAULT
    if depth > 8:
        C.undec(key, where, show(v, 4))
        return
    while v.op == 'store' and arr:
        v = v.a[0]
    while v.op == 'push' and name == 'touched':
        v = v.a[0]
    if not arr:
        good = is_empty(v) if name == 'touched' else v is FALSE
        if good:
            C.ok(key, where, '%s' % show(v, 3))
            return
    if v.op == 'repeat' and arr:
        C.decide(key + ':value', is_default(name, v.a[0]), where, 'cells start with %s' % show(v.a[0], 3), decidable=known(v.a[0]))
        C.decide(key + ':size', bigger(v.a[1], size), where, 'one cell per node of the graph: %s' % show(v.a[1], 4), decidable=known(v.a[1]))
        return
    if v.op == 'resized' and arr:
        C.decide(key + ':value', is_default(name, v.a[2]), where, 'new cells start with %s' % show(v.a[2], 3), decidable=known(v.a[2]))
        C.decide(key + ':size', bigger(v.a[1], size), where, 'one cell per node of the graph: %s' % show(v.a[1], 4), decidable=known(v.a[1]))
        if is_empty(v.a[0]):
            C.ok(key, where, 'new array')
            return
        r = cleaned(C, S, N, v.a[0], name, d, k, alg, key, where)
        if r is None:
            C.undec(key, where, show(v.a[0], 5))
        return
    st = N.unfold(v, name, d, k, alg)
    if st is not None:
        for x, p in st:
            if x.op == 'idx' and x.a[0] is p:
                # no write in this loop
                i = E.phi_ops[p][0]
                y = E.index(i, I(k))
                back(C, S, N, y, name, d, k, alg, key, size, where, depth + 1)
            else:
                back(C, S, N, x, name, d, k, alg, key, size, where, depth + 1)
        return
    r = None
    if not (v.op == 'idx' and v.a[0].op == 'phi' and [q for q in N.dirvars if loopkey(q.a[1]) == loopkey(v.a[0])]):
        r = cleaned(C, S, N, v, name, d, k, alg, key, where)
    if r is None:
        raw = v.op == 'idx' and v.a[0].op == 'fld' and v.a[0].a[0] is N.old
        C.decide(key, False, where, 'the state of an earlier query survives: %s' % show(v, 5), decidable=raw or (v.op == 'c'))


def bigger(n, size):
    x = cint(isub(n, size))
    return x is not None and x >= 0


def raw_state(N, x, name, k):
    """is x the array of direction k left by the previous query?"""
    E = N.E
    for _ in range(4):
        if x.op == 'idx' and cint(x.a[1]) == k:
            b = x.a[0]
            if b.op == 'fld' and b.a[0] is N.old and b.a[2] == name:
                return True
            if b.op == 'phi' and b in E.phi_ops and [q for q in N.dirvars if loopkey(q.a[1]) == loopkey(b)]:
                x = E.index(E.phi_ops[b][0], I(k))
                continue
        return False
    return False


def cleaned(C, S, N, v, name, d, k, alg, key, where):
    """v: array of one direction; True if all cells hold the initial value (obligations are reported), None if not understood"""
    E = S.E
    if raw_state(N, v, name, k):
        C.decide(key, False, where, 'the cells written by an earlier query are not reset')
        return True
    if v.op == 'idx' and v.a[0].op == 'phi' and v.a[0] in E.phi_ops and cint(v.a[1]) == k:
        p = v.a[0]
        sub = lambda q: rebuild(E, q)
        i, n = [N.spec(q, d, alg) for q in E.phi_ops[p]]
        bp = N.spec(E.back_pc.get(loopkey(p), TRUE), d, alg)
        base = E.index(i, I(k))
        shape = True
        every = TRUE
        for c, x in leaves(n, bp):
            if x.op == 'store' and x.a[0] is p and cint(x.a[1]) == k and x.a[2].op == 'store' and x.a[2].a[0] is idx(p, I(k)):
                cell, val = x.a[2].a[1], x.a[2].a[2]
                C.decide(key + ':reset', is_default(name, val), where, 'cells are reset to %s' % show(val, 3), decidable=known(val))
                if cell.op == 'idx':
                    # cells that were noted
                    t, j = cell.a
                    j, shift = position(j)
                    ok = j.op == 'rng' and raw_state(N, t, 'touched', k)
                    C.decide(key + ':touched', ok, where, 'all touched cells of this direction are reset: %s' % show(t, 4), decidable=j.op == 'rng' and (t.op == 'agg' or any(raw_state(N, t, 'touched', kk) for kk in (0, 1))))
                    if ok:
                        cnt = N.spec(j.a[2], d, alg)
                        C.decide(key + ':first-touched', shift == 0, where, 'from the first one: %s' % show(cell.a[1], 4), decidable=shift > 0)
                        C.decide(key + ':all-touched', shift > 0 or cnt is mk('len', t) or cnt is E.length(t), where, 'from the first to the last: %s' % show(cnt, 4), decidable=cint(isub(cnt, mk('len', t))) is not None)
                elif cell.op == 'rng':
                    arr = base
                    cnt = N.spec(cell.a[2], d, alg)
                    while arr.op == 'store':
                        arr = arr.a[0]
                    full = cnt is E.length(arr) or cnt is E.length(base) or cnt is mk('len', idx(p, I(k)))
                    C.decide(key + ':all', full, where, 'all cells are reset: %s' % show(cnt, 5), decidable=False)
                else:
                    shape = False
            elif x is p:
                C.decide(key + ':always', False, where, 'a cell is not reset if %s' % show(c, 5), decidable=all(known(a) for a in atoms_of(c)))
            else:
                shape = False
        if not shape:
            return None
        if base.op == 'resized':
            C.decide(key + ':size', bigger(base.a[1], mk('len', gfld(S.g, 'node_ids'))), where, 'one cell per node of the graph: %s' % show(base.a[1], 4), decidable=known(base.a[1]))
            base = base.a[0]
        if not raw_state(N, base, name, k) and not is_empty(base):
            return None
        C.ok(key, where, 'reset')
        return True
    return None


def direct(C, S, N):
    """no part of the previous state is read directly by the search"""
    E = S.E
    bad = {}
    seen = set()
    terms = [n for p, (i, n) in E.phi_ops.items() if n is not None] + list(E.back_pc.values()) + [E.ret]
    for t in terms:
        for x in parts(t):
            if x.op == 'fld' and x.a[0] is N.old and x.a[1] == DIJ and x.id not in seen:
                seen.add(x.id)
                bad[x.a[2]] = x
    # scalar fields only: arrays are followed above
    scal = {f[0] for v in C.P.adts[DIJ]['variants'] for f in v['fields'] if f[1] in ('bool', 'usize', 'f64', 'u8', 'i64')} if DIJ in C.P.adts else set()
    for f, x in bad.items():
        C.decide('direct:' + f, f not in scal, BEST, 'a search reads `%s` as left by an earlier query' % f, decidable=f in scal)
    if not bad:
        C.ok('direct', BEST, 'no value left by an earlier query is read')


def created(C):
    """a new state is empty"""
    f = C.fn(DIJ + '::new')
    if f is None:
        return
    E = C.run(f)
    if E is None or E.ret.op != 'agg':
        C.undec('new', DIJ + '::new', '')
        return
    for n, v in zip(E.ret.a[3], E.ret.a[4]):
        if n in ('costs', 'predecessors', 'touched'):
            ok = v.op == 'agg' and all(is_empty(x) for x in v.a[4])
            C.decide('new:' + n, ok, DIJ + '::new', 'a new state is empty: %s' % show(v, 4), decidable=known(v))


CHECKS['P19'] = p19


# ------------------------------------------------------------------ P22
PATH = 'osmgraphing::routing::paths::Path::'


def p22(pid, tier):
    C = Check(pid, tier, 'a search with a negative weight returns no path instead of searching; costs are only replaced by lower ones and a node is queued again only then, so that every cycle is left; unpacking stops with an error when the edges collected and still to be unpacked exceed the edges of the graph')
    S = Search(C)
    if S.ok:
        alphas(C, S)
        for K in cases(S):
            strict(C, S, K)
    U = Unpack(C)
    if U.ok:
        bounded(C, U)
    return C.finish(min_ok=10)


def alphas(C, S):
    E = S.E
    al = None
    terms = list(E.back_pc.values()) + [E.ret]
    tests = []
    for k, b in E.back_pc.items():
        for a in atoms_of(b):
            if contains(a, lambda t: t.op == 'fld' and t.a[2] == 'alphas') and a.op in ('flt', 'fle', 'any', 'all', 'feq', 'call'):
                tests.append((k, b, a))
    good = False
    where = BEST
    for k, b, a in tests:
        if a.op in ('flt', 'fle'):
            zero = [x for x in a.a if isc(x)]
            el = [x for x in a.a if x.op == 'idx' and position(x.a[1])[0].op == 'rng']
            if not zero or not el or loopkey(position(el[0].a[1])[0]) != k:
                continue
            neg_true = (a.op == 'flt' and a.a[0] is el[0]) or (a.op == 'fle' and a.a[0] is el[0])
            z = fconst(zero[0])
            r, shift = position(el[0].a[1])
            excl = implies(b, NOT(a)) if neg_true else implies(b, _atom(a)) and a.a[0] is zero[0]
            C.decide('weights:sign', excl and z is not None and (z >= 0 or False), where, 'a negative weight stops the query: %s' % show(a, 5), decidable=z is not None)
            C.decide('weights:first', shift == 0, where, 'the weights are tested from the first one: %s' % show(el[0], 4), decidable=shift > 0)
            C.decide('weights:all', shift > 0 or r.a[2] is mk('len', el[0].a[0]), where, 'every weight is tested: %s' % show(r.a[2], 4), decidable=known(r.a[2]))
            good = True
    if not good:
        anys = {a for t in terms for b in [t] + [c for c, x in ret_under(E, TRUE)] for a in atoms_of(b) if a.op == 'any' and contains(a, lambda t: t.op == 'fld' and t.a[2] == 'alphas')}
        ok = False
        for a in anys:
            j, inner = a.a[0], a.a[1]
            for el in {x for x in subterms(inner) if x.op == 'idx' and x.a[1] is j and x.a[0].op == 'fld' and x.a[0].a[2] == 'alphas'}:
                neg = OR(FALSE, *[_atom(q) for q in atoms_of(inner) if q.op == 'flt' and q.a[0] is el and fconst(q.a[1]) == 0.0])
                le = [_atom(q) for q in atoms_of(inner) if q.op == 'fle' and fconst(q.a[0]) == 0.0 and q.a[1] is el]
                fits = any(n is not FALSE and implies(n, inner) for n in [neg] + [NOT(q) for q in le])
                if fits and j.a[2] is mk('len', el.a[0]) and all(variant_of(x) == 'None' for c, x in ret_under(E, _atom(a))):
                    ok = True
        C.decide('weights', ok, where, 'negative weights are not excluded', decidable=not [x for x in tests if x[2].op != 'any'] and all(known(q) for a in anys for q in atoms_of(a.a[1])))
    # and the result is no path
    for c, x in ret_under(E, TRUE):
        for k, b, a in tests:
            el = [y for y in a.a if isinstance(y, T) and y.op == 'idx' and y.a[1].op == 'rng']
            if a.op == 'flt' and fconst(a.a[1]) == 0.0 and el and variant_of(x) == 'Some':
                r = AND(c, cond(a), _atom(mk('more', el[0].a[1])))
                C.decide('weights:none', r is FALSE, where, 'no path with a negative weight', decidable=clear(rebuild(E, r, pre=S.names)))


def strict(C, S, K):
    key = 'strict:' + K.key
    ws, none, odd = K.writes
    if odd or not ws:
        C.undec(key, BEST, '')
        return
    upd = FALSE
    for c, k, w, v in ws:
        old = idx(idx(sym("costs'"), k), w)
        must(C, key, c, _atom(mk('flt', v, old)), 'costs are replaced only by lower ones', K=K)
        upd = OR(upd, c)
    if 'queue' in K.rn:
        for c, v in leaves(K.rn['queue'], K.rback):
            if v is not sym("queue'") and v.op == 'mut' and v.a[0].a[0].endswith('BinaryHeap::<T, A>::push'):
                must(C, key + ':queued', c, upd, 'a node is queued only with lower costs', K=K)
    # the main loop takes an entry in every iteration
    C.decide('taken', implies(S.loops_at(S.main), opt_is(S.pop)), BEST, 'every iteration takes an entry from the queue', decidable=False)


class Unpack:
    """unpacking of shortcuts: stack of edges, current edge, edges collected"""

    def __init__(self, C):
        self.C, self.ok = C, False
        E = self.E = C.run(PATH + 'try_flatten')
        if E is None:
            return
        where = self.where = PATH + 'try_flatten'
        pops = []
        for b in E.back_pc.values():
            for x in subterms(b):
                if x.op == 'pop' and x not in pops or x.op == 'call' and x.a[0].endswith('::pop') and x not in pops:
                    pops.append(x)
        pops = [x for x in pops if x.op == 'call' and x.a[2] and x.a[2][0].op == 'phi' and x.a[2][0] in E.phi_ops]
        if len(pops) != 1:
            C.undec('unpack:stack', where, '%d stacks' % len(pops))
            return
        self.pop = pops[0]
        self.stack = self.pop.a[2][0]
        self.outer = loopkey(self.stack)
        self.first = vfld_some(self.pop)
        # inner loop following the first halves
        ins = [p for p, (i, n) in E.phi_ops.items() if i is self.first and loopkey(p) != self.outer]
        self.cur = ins[0] if len(ins) == 1 else None
        self.inner = loopkey(self.cur) if self.cur is not None else None
        self.stack2 = None
        if self.inner:
            ss = [p for p, (i, n) in E.phi_ops.items() if loopkey(p) == self.inner and i is not None and i.op == 'popped' and i.a[0] is self.stack]
            self.stack2 = ss[0] if len(ss) == 1 else None
        elif len(ins) > 1:
            C.undec('unpack:inner', where, '')
            return
        self.edge = self.cur if self.cur is not None else self.first
        self.g = mk('arg', 1)
        # collected edges
        own = fld(mk('arg', 0), PATH[:-2], 'costs')
        oks = []
        for c, x in ret_under(E, TRUE):
            if variant_of(x) != 'Ok':
                continue
            if x.op == 'agg':
                y = x.a[4][0]
                if y is mk('arg', 0) or y.op == 'agg' and y.a[2] == 'Path' and dict(zip(y.a[3], y.a[4])).get('costs') is own:
                    # the path as it was given
                    C.decide('costs:known', implies(c, E.is_(own, OPTION, 'Some')), where, 'a path is returned whose costs have not been calculated', decidable=not any(contains(a, lambda t: t is own) for a in atoms_of(c)))
                    continue
            oks.append(x)
        self.path = oks[0].a[4][0] if oks and oks[0].op == 'agg' else None
        if self.path is None or self.path.op != 'agg' or self.path.a[2] != 'Path' or len({x.id for x in oks}) != 1:
            C.undec('unpack:result', where, '')
            return
        self.fields = dict(zip(self.path.a[3], self.path.a[4]))
        self.out = self.fields.get('edges')
        if self.out is None or self.out.op != 'phi' or self.out not in E.phi_ops:
            C.decide('unpack:edges', False, where, 'edges of the unpacked path: %s' % show(self.out, 4) if self.out is not None else '', decidable=self.out is not None and known(self.out))
            return
        self.ok = True

    def halves(self, t):
        """(edge, which half) if t is one of the two edges a shortcut stands for"""
        t = num(t)
        if t.op == 'idx' and cint(t.a[1]) is not None and t.a[0].op == 'idx' and t.a[0].a[0] is gfld(self.g, 'sc_edges'):
            o = t.a[0].a[1]
            if o.op == 'idx' and o.a[0] is gfld(self.g, 'sc_offsets'):
                return num(o.a[1]), cint(t.a[1])
        return None


def bounded(C, U):
    E = U.E
    loop = U.inner or U.outer
    b = E.back_pc.get(loop, TRUE)
    st = U.stack2 if U.stack2 is not None else U.stack
    if st is None:
        C.undec('bound', U.where, '')
        return
    grows = U.inner is not None
    ls, lo = mk('len', st), mk('len', U.out)
    bounds = []
    for a in atoms_of(b):
        if a.op == 'neg' and a.a[0].op == 'lin':
            m = dict(a.a[0].a[1])
            for pol in (True, False):
                if implies(b, _atom(a) if pol else NOT(a)):
                    s = 1 if pol else -1
                    m2 = {k: v * s for k, v in m.items()}
                    # pol: lin < 0 bounds positive coefficients; otherwise lin >= 0 bounds negative ones
                    bounds.append((a, m2))
    pure = all(known(rebuild(E, a, pre={st: sym('stack'), U.out: sym('edges'), U.stack: sym('stack0'), **({U.pop: sym('popped')} if getattr(U, 'pop', None) is not None else {}), **({U.cur: sym('edge')} if U.cur is not None else {})}), ('sym', 'pop', 'popped')) for a in atoms_of(b))
    if not grows:
        C.undec('bound', U.where, 'single loop')
        return
    good = [m for a, m in bounds if m.get(ls, 0) > 0 and m.get(lo, 0) > 0 and all(v < 0 or k in (ls, lo) for k, v in m.items())]
    C.decide('bound:stack', any(m.get(ls, 0) > 0 for a, m in bounds), U.where, 'unpacking stops when too many edges are waiting to be unpacked', decidable=pure)
    C.decide('bound:edges', bool(good) or any(m.get(lo, 0) > 0 for a, m in bounds) and any(m.get(ls, 0) > 0 for a, m in bounds), U.where, 'unpacking stops when too many edges were collected', decidable=pure)
    lv = [x for c, x in ret_under(E, TRUE) if variant_of(x) == 'Err']
    C.decide('bound:error', bool(lv), U.where, 'this is reported as an error', decidable=True)


CHECKS['P22'] = p22


# ------------------------------------------------------------------ P23
def p23(pid, tier):
    C = Check(pid, tier, 'unpacking replaces every shortcut by its first edge followed by its second one, in the order of the path, until no shortcut is left; the costs are the sums of the metrics of exactly the edges collected, starting at zero; source and destination are kept')
    U = Unpack(C)
    if U.ok:
        unpacked(C, U)
    flat(C)
    calc(C)
    return C.finish(min_ok=12)


def shortcut_cond(U, e):
    """e is a shortcut"""
    off = gfld(U.g, 'sc_offsets')
    return NOT(izero(isub(idx(off, iadd(num_of(U, e), I(1))), idx(off, num_of(U, e)))))


def num_of(U, e):
    """position inside of an edge index"""
    for x in subterms(list(U.E.back_pc.values())[0]) if False else [y for b in U.E.back_pc.values() for y in subterms(b)]:
        if x.op == 'fld' and x.a[2] == '0' and x.a[0] is e:
            return x
    return e


def at_bottom(v, stack):
    """something is inserted below the entries of the stack"""
    return v.op == 'mut' and v.a[0].op == 'call' and v.a[0].a[0].endswith('::insert') and v.a[0].a[2][0] is stack and cint(v.a[0].a[2][1]) is not None


def unpacked(C, U):
    E, w = U.E, U.where
    # order
    init, nx = E.phi_ops[U.stack]
    arg = fld(mk('arg', 0), PATH[:-2], 'edges')
    C.decide('order:start', init is mk('reversed', arg), w, 'the edges of the path are taken from the first to the last: %s' % show(init, 4), decidable=init is arg or known(init))
    sc = shortcut_cond(U, U.edge)
    if U.inner is not None:
        if U.stack2 is None:
            C.undec('halves', w, 'stack of the inner loop')
            return
        bp = E.back_pc.get(U.inner, TRUE)
        must(C, 'halves:shortcut', bp, sc, 'only shortcuts are replaced', w, ok=True)
        for c, v in leaves(E.phi_ops[U.stack2][1], bp):
            if v.op == 'push' and v.a[0] is U.stack2:
                h = U.halves(v.a[1])
                C.decide('halves:second', h == (num(U.edge), 1), w, 'the second edge of the shortcut is kept for later: %s' % show(v.a[1], 7), decidable=h is not None or known(rebuild(E, v.a[1], pre={U.edge: sym('edge')}), ('sym',)))
            else:
                C.decide('halves:second', False, w, 'the second edge of a shortcut is lost if %s' % show(c, 4), decidable=v is U.stack2 or at_bottom(v, U.stack2))
        for c, v in leaves(E.phi_ops[U.cur][1], bp):
            h = U.halves(v)
            C.decide('halves:first', h == (num(U.edge), 0), w, 'the first edge of the shortcut comes next: %s' % show(v, 7), decidable=h is not None or known(rebuild(E, v, pre={U.edge: sym('edge')}), ('sym',)))
        ob = E.back_pc.get(U.outer, TRUE)
        for c, v in leaves(nx, ob):
            C.decide('order:rest', v is U.stack2, w, 'the remaining edges are kept: %s' % show(v, 4), decidable=v.op in ('phi', 'agg', 'popped') and v is not U.stack2)
        must(C, 'collected:plain', ob, NOT(sc), 'only edges that are no shortcuts are collected', w)
    else:
        ob = E.back_pc.get(U.outer, TRUE)
        popd = mk('popped', U.stack)
        for c, v in leaves(nx, ob):
            if v is popd:
                must(C, 'collected:plain', c, NOT(sc), 'only edges that are no shortcuts are collected', w)
            elif v.op == 'push' and v.a[0].op == 'push' and v.a[0].a[0] is popd:
                h1, h0 = U.halves(v.a[0].a[1]), U.halves(v.a[1])
                must(C, 'halves:shortcut', c, sc, 'only shortcuts are replaced', w)
                C.decide('halves:second', h1 == (num(U.edge), 1), w, 'the second edge of the shortcut is kept for later', decidable=h1 is not None)
                C.decide('halves:first', h0 == (num(U.edge), 0), w, 'the first edge of the shortcut comes next', decidable=h0 is not None)
            else:
                C.undec('halves', w, show(v, 5))
    # collected edges
    oi, on = E.phi_ops[U.out]
    C.decide('collected:start', is_empty(oi), w, 'nothing is collected at the start: %s' % show(oi, 3), decidable=known(oi))
    ob = E.back_pc.get(loopkey(U.out), TRUE)
    push = FALSE
    for c, v in leaves(on, ob):
        if v.op == 'push' and v.a[0] is U.out:
            C.decide('collected:edge', num(v.a[1]) is num(U.edge), w, 'the edge is collected: %s' % show(v.a[1], 5), decidable=known(rebuild(E, v.a[1], pre={U.edge: sym('edge'), U.first: sym('first')}), ('sym',)))
            push = OR(push, c)
        elif v is U.out:
            if U.inner is not None:
                C.decide('collected:always', False, w, 'an edge is lost if %s' % show(c, 5), decidable=True)
            else:
                must(C, 'collected:always', c, sc, 'an edge that is no shortcut is collected', w)
        else:
            C.decide('collected:edge', False, w, 'the edges become %s' % show(v, 4), decidable=v.op == 'agg')
    # costs
    cs = U.fields.get('costs')
    if cs is not None:
        v = cs.a[4][0] if variant_of(cs) == 'Some' and cs.op == 'agg' else None
        if v is None and cs.op == 'phi' and cs in E.phi_ops:
            i = E.phi_ops[cs][0]
            old = fld(mk('arg', 0), PATH[:-2], 'costs')
            C.decide('costs:zero', False, w, 'costs start with %s' % show(i, 4), decidable=any(x is old for x in leafset(i)))
        elif v is None:
            C.decide('costs', False, w, 'the costs are not known: %s' % show(cs, 3), decidable=variant_of(cs) == 'None')
        elif v.op == 'phi' and v in E.phi_ops:
            summed(C, E, v, U.edge, push, w, 'costs')
        else:
            C.decide('costs', False, w, 'costs %s' % show(v, 4), decidable=known(v))
    for f in ('src_idx', 'src_id', 'dst_idx', 'dst_id'):
        if f in U.fields:
            x = U.fields[f]
            want = fld(mk('arg', 0), PATH[:-2], f)
            C.decide('kept:' + f, x is want, w, 'the unpacked path has the same %s: %s' % (f, show(x, 4)), decidable=known(x))


def summed(C, E, p, edge, when, w, key):
    """p: sums per column, to which the metrics of the edge are added in each iteration"""
    i, n = E.phi_ops[p]
    C.decide(key + ':zero', i.op == 'repeat' and fconst(i.a[0]) == 0.0, w, 'costs start at zero: %s' % show(i, 3), decidable=i.op == 'repeat' and isc(i.a[0]))
    for c, v in leaves(n, E.back_pc.get(loopkey(p), TRUE)):
        if v is p:
            r = AND(c, when)
            if when is not FALSE:
                C.decide(key + ':always', r is FALSE, w, 'the metrics of an edge are not added if %s' % show(r, 5), decidable=True)
            continue
        if v.op == 'phi' and v in E.phi_ops and E.phi_ops[v][0] is p:
            q = v
            for cc, x in leaves(E.phi_ops[q][1], E.back_pc.get(loopkey(q), TRUE)):
                if x.op == 'store' and x.a[0] is q:
                    j, y = x.a[1], x.a[2]
                    column(C, E, y, idx(q, j), j, edge, w, key)
                else:
                    C.decide(key + ':column', False, w, 'a column is left out if %s' % show(cc, 5), decidable=x is q)
        elif v.op == 'collect':
            r, extra, y = v.a
            C.decide(key + ':every-column', extra is TRUE, w, 'all columns are kept', decidable=False)
            column(C, E, y, idx(p, r), r, edge, w, key)
        else:
            C.undec(key + ':column', w, show(v, 5))


def column(C, E, y, old, j, edge, w, key):
    ok = False
    m = None
    if y.op == 'bin' and y.a[0] == 'Add' and old in y.a[1:3]:
        rest = [t for t in y.a[1:3] if t is not old]
        m = rest[0] if rest else old
        ok = m.op == 'idx' and m.a[1] is j and m.a[0].op == 'idx' and m.a[0].a[0].op == 'fld' and m.a[0].a[0].a[2] == 'metrics' and num(m.a[0].a[1]) is num(edge)
    nm = {t: sym('state') for t in subterms(y) if t.op == 'phi'}
    C.decide(key + ':column', ok, w, 'the metric of the edge is added to its column: %s' % show(y, 7), decidable=known(rebuild(E, y, pre=nm), ('sym',)))
    if ok and j.op == 'rng':
        C.decide(key + ':columns', covers2(j.a[2]), w, 'for all columns: %s' % show(j.a[2], 4), decidable=cint(j.a[2]) is not None)


def covers2(n):
    fl = []
    for x in (n.a if n.op == 'minlen' else [n]):
        fl += leafset(x)
    return all(x.op == 'len' for x in fl)


def flat(C):
    """flatten is try_flatten without the error"""
    f = C.fn(PATH + 'flatten')
    if f is None:
        return
    E = C.run(f, no_inline=(PATH + 'try_flatten',), key='flat')
    if E is None:
        return
    cs = [x for x in subterms(E.ret) if x.op == 'call' and x.a[0].endswith('try_flatten')]
    ok = len(cs) == 1 and E.ret is mk('vfld', cs[0], 'Ok', '0') and cs[0].a[2][0] is mk('arg', 0)
    C.decide('flatten', ok, PATH + 'flatten', 'the unpacked path is returned: %s' % show(E.ret, 4), decidable=False)


def calc(C):
    """costs of a path: sums of the metrics of all of its edges"""
    f = C.fn(PATH + 'calc_costs')
    if f is None:
        return
    E = C.run(f)
    if E is None:
        return
    w = PATH + 'calc_costs'
    C.decide('calc:always', E.final.pc is TRUE, w, 'the costs are only delivered if %s' % show(E.final.pc, 5), decidable=known(E.final.pc))
    folds = [p for p, (i, n) in E.phi_ops.items() if i is not None and i.op == 'repeat']
    for p in folds:
        body, todo = [], [E.phi_ops[p][1]]
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x not in body:
                    body.append(x)
                    if x.op == 'phi' and x is not p and x in E.phi_ops and E.phi_ops[x][1] is not None:
                        todo.append(E.phi_ops[x][1])
        es = [x for x in body if x.op == 'idx' and x.a[0].op == 'fld' and x.a[0].a[2] == 'edges' and x.a[1].op == 'rng']
        es = [x for x in es if loopkey(x.a[1]) == loopkey(p) or re.search(r'\b%s\b' % x.a[1].a[1], str(loopkey(p)[1]).replace('it', '').replace('.', ' '))]
        if not es:
            used = [x for x in body if x.op == 'fld' and x.a[2] == 'edges' and x.a[0] is mk('arg', 0)]
            C.decide('calc:edges', False, w, 'not all edges are summed', decidable=all(known(rebuild(E, x, pre={y: sym('sum') for y in body if y.op == 'phi'}), ('sym',)) for x in body) and not any(b.op == 'idx' and b.a[0] in used and b.a[1].op == 'rng' for b in body))
            continue
        e = es[0]
        C.decide('calc:all', e.a[1].a[2] is mk('len', e.a[0]), w, 'all edges are summed: %s' % show(e.a[1].a[2], 4), decidable=known(e.a[1].a[2]))
        summed(C, E, p, e, TRUE, w, 'calc')
    if not folds:
        C.undec('calc', w, '')


CHECKS['P23'] = p23
