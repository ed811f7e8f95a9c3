"""P25, P26: balancing (workloads, iterations, new metric). Needs the feature gpl: analysed, never linked."""
from ..lib import *

from ..terms import _atom

CHECKS = {}
RESULT = 'core::result::Result'
MT = 'osmgraphing::balancing::multithreading::'
BEST = 'osmgraphing::routing::dijkstra::Dijkstra::compute_best_path'
EXPL = 'osmgraphing::routing::explorating::ConvexHullExplorator::fully_explorate'
INTO = 'osmgraphing::network::routes::RoutePair::<i64>::into_node'
FLAT = 'osmgraphing::routing::paths::Path::flatten'
NI = (BEST, EXPL, INTO, FLAT)
ALGO = 'osmgraphing::configs::routing::RoutingAlgo'
RCFG = 'osmgraphing::configs::routing::Config'
QUERY = 'osmgraphing::routing::dijkstra::Query'
OUT = MT + 'Outcome'
WORK = MT + 'Work'
WRK = MT + 'Worker'
NODE = 'osmgraphing::network::graph::Node'
RP = 'osmgraphing::network::routes::RoutePair'


def field(E, v, owner, name):
    return E.proj(v, ('f', name, owner))


def calls_to(t, name):
    return [x for x in subterms(t) if x.op == 'call' and x.a[0] == name]


def tup(v):
    return list(v.a[4]) if v is not None and v.op == 'agg' and v.a[0] == 'tuple' else None


def is_rng_atom(a):
    return a.op == 'in' or (a.op == 'rng')


def ranges(pc):
    """loops an effect is in, with their counts: {loopkey: rng}"""
    return {loopkey(r): r for a in atoms_of(pc) for r in subterms(a) if r.op == 'rng'}


def worker(C):
    cands = [f for f in C.P.fns.values() if f['crate'].endswith('-bin') and f['path'].startswith(MT + 'Worker') and '{closure' in f['path']]
    n = 0
    for f in cands:
        E = C.run(f, key=f['key'], no_inline=NI)
        if E is None:
            continue
        sends = [e for e in E.eff if e.kind == 'call' and e.name.startswith('std::sync::mpsc::') and e.name.endswith('::send')]
        if not sends:
            continue
        n += 1
        one_worker(C, f, E, sends)
    if not n:
        C.undec('worker', MT, 'no closure that sends outcomes')


def one_worker(C, f, E, sends):
    root = f['path']
    for e in sends:
        t = tup(e.vals[1])
        if t is None or len(t) != 2:
            C.undec('sent', e.loc(), 'not an outcome with its worker')
            continue
        wk = [x for x in subterms(e.vals[0]) if x.op == 'fld' and x.a[1] == WRK]
        me = wk[0].a[0] if wk else None
        if me is None:
            C.undec('sent', e.loc(), 'unknown sender')
            continue
        C.decide('sent:idx', t[0] is fld(me, WRK, 'idx'), e.loc(), 'the outcome names the worker that did the work: %s' % show(t[0], 4), decidable=known(t[0]))
        recvs = [x for x in subterms((e.pc, t[1])) if x.op == 'call' and x.a[0].endswith('::recv')]
        if len(set(recvs)) != 1:
            C.undec('work', e.loc(), '%d receptions' % len(set(recvs)))
            continue
        rc = recvs[0]
        work = E.proj(rc, ('vf', 'Ok', '0', RESULT))
        C.decide('sent:every', implies(ok_pc(E, rc), e.pc), e.loc(), 'every received work yields an outcome', decidable=all(a.op in ('is', 'isv') or known(a) for a in atoms_of(e.pc)))
        algo = fld(fld(me, WRK, 'arc_routing_cfg'), RCFG, 'routing_algo')
        subj = [s for s in free_subjects([t[1], e.pc] + [x.pc for x in E.eff], ALGO)]
        for var in [x['name'] for x in C.P.variants(ALGO)]:
            care = TRUE
            for s in subj:
                care = AND(care, E.is_(s, ALGO, var))
            o = restrict(t[1], AND(e.pc, care))
            outcome(C, E, e, o, me, work, var, care)


def ok_pc(E, x):
    return E.is_(x, RESULT, 'Ok')


def outcome(C, E, e, o, me, work, var, care):
    pairs = fld(work, WORK, 'route_pairs')
    care2 = AND(e.pc, care)
    cnt = restrict(field(E, o, OUT, 'num_of_route_pairs'), care2)
    C.decide('pairs:%s' % var, cnt is mk('len', pairs), e.loc(), 'the number of route-pairs is that of the work: %s' % show(cnt, 4), decidable=known(cnt))
    ch = restrict(field(E, o, OUT, 'chosen_paths'), care2)
    g = grown(E, ch, care)
    if g is None:
        C.undec('chosen:%s' % var, e.loc(), 'chosen paths: %s' % show(ch, 4))
        return
    C.decide('chosen:%s:initial' % var, is_empty(g[0]), e.loc(), 'an outcome starts without paths: %s' % show(g[0], 4), decidable=known(g[0]) or g[0].op == 'phi')
    if not g[1]:
        C.decide('chosen:%s:none' % var, False, e.loc(), 'no path is ever chosen')
    if len(g[1]) != 1 or len(g[1][0][2]) != 1:
        C.decide('chosen:%s:count' % var, len(g[1]) == 0 or sum(len(x[2]) for x in g[1]) == 1, e.loc(), 'a path is chosen at one place', decidable=len(g[1]) == 1)
        return
    keys, pc, (val,) = g[1][0]
    rn = {loopkey(r): r for r in subterms((pc, val)) if r.op == 'rng'}
    want = BEST if var != 'Explorator' else EXPL
    srch = calls_to(val, BEST) + calls_to(val, EXPL)
    srch = [s for s in set(srch) if not any(s is not q and contains(q, lambda x: x is s) for q in srch)]
    if len(srch) != 1:
        C.undec('chosen:%s:search' % var, e.loc(), '%d searches' % len(srch))
        return
    s = srch[0]
    C.decide('chosen:%s:algorithm' % var, s.a[0] == want, e.loc(), '%s is answered by %s' % (var, s.a[0].split('::')[-1]))
    q = [x for x in s.a[2] if x.op == 'agg' and x.a[1] == QUERY]
    if len(q) != 1:
        C.undec('chosen:%s:query' % var, e.loc(), 'query not followed')
        return
    q = q[0]
    nodes = [x for x in subterms(q) if x.op == 'call' and x.a[0] == INTO]
    if len(set(nodes)) != 1:
        C.undec('chosen:%s:nodes' % var, e.loc(), 'nodes not followed')
        return
    nd = nodes[0]
    pr = nd.a[2][0]
    m = match(fld(V('P'), '()', '0'), pr)
    elem = pr.a[0] if pr.op == 'fld' else None
    okp_ = elem is not None and elem.op == 'idx' and elem.a[0] is pairs and elem.a[1].op == 'rng' and elem.a[1].a[2] is mk('len', pairs)
    C.decide('chosen:%s:pair' % var, okp_, e.loc(), 'routes are searched for every pair of the work: %s' % show(pr, 5), decidable=known(pr))
    if not okp_:
        return
    graph = fld(me, WRK, 'arc_graph')
    C.decide('chosen:%s:graph' % var, nd.a[2][1] is graph and field(E, q, QUERY, 'graph') is graph, e.loc(), 'the graph of the worker is used', decidable=known(field(E, q, QUERY, 'graph')))
    for a, b in (('src', 'src_idx'), ('dst', 'dst_idx')):
        got = field(E, q, QUERY, b)
        exp = field(E, field(E, nd, RP, a), NODE, 'idx')
        C.decide('chosen:%s:%s' % (var, b), got is exp, e.loc(), 'the search uses the %s of the pair: %s' % (a, show(got, 4)), decidable=known(got, ('call',)))
    cfg = field(E, q, QUERY, 'routing_cfg')
    base = fld(me, WRK, 'arc_routing_cfg')
    for nm in ('alphas', 'tolerated_scales', 'routing_algo'):
        if not C.has_field(RCFG, nm):
            continue
        got = restrict(field(E, cfg, RCFG, nm), care)
        exp = restrict(fld(base, RCFG, nm), care)
        if nm == 'routing_algo' and var == 'Explorator':
            ea = 'osmgraphing::configs::routing::ExploratorAlgo'
            for w in [x['name'] for x in C.P.variants(ea)]:
                k = restrict(got, AND(care, _all_is(E, got, ea, w)))
                C.decide('chosen:%s:config:%s' % (var, w), variant_of(k) == w, e.loc(), 'explorating with %s searches with %s' % (w, variant_of(k)), decidable=variant_of(k) is not None)
            continue
        C.decide('chosen:%s:config:%s' % (var, nm), got is exp, e.loc(), 'the search uses the configured %s: %s' % (nm, show(got, 4)), decidable=known(got))
    # multiplicity
    n = fld(elem, '()', '1')
    inner = [r for r in rn.values() if r is not elem.a[1]]
    cnts = [r for r in inner if contains(pc, lambda x: x is r)]
    counting = [(a, counter_times(E, a)) for a in atoms_of(pc) if a.op in ('neg', 'zero') and contains(a, lambda x: x is n or x is E.proj(elem, ('f', '1', '()'))) and contains(a, lambda x: x.op == 'phi' and loopkey(x) != loopkey(elem.a[1]))]
    if len(cnts) == 1 and len(keys) >= 2:
        C.decide('chosen:%s:times' % var, cnts[0].a[2] is E.proj(elem, ('f', '1', '()')) or cnts[0].a[2] is n, e.loc(), 'a path is chosen as often as the route occurs: %s' % show(cnts[0].a[2], 5), decidable=known_but(cnts[0].a[2], ('recv',)))
    elif counting:
        for a, times in counting:
            C.decide('chosen:%s:times' % var, times is not None and times is E.proj(elem, ('f', '1', '()')), e.loc(), 'a path is chosen as often as the route occurs: %s' % show(times or a, 5), decidable=times is not None and known(times))
    elif not cnts:
        C.decide('chosen:%s:times' % var, False, e.loc(), 'a path is chosen once, however often the route occurs', decidable=len(keys) < 2 and not any(x.op == 'call' and 'repeat' in x.a[0] for x in subterms(val)))
    else:
        C.undec('chosen:%s:times' % var, e.loc(), 'multiplicity not followed')
    # nothing but a missing path prevents a choice
    def harmless(a):
        if a.op == 'more' or any(x.op == 'fld' and x.a[1] == RCFG and x.a[2] == 'routing_algo' for x in subterms(a)) and a.op == 'is':
            return True
        if a.op == 'is' and (a.a[0] is s or a.a[0].op == 'call' and a.a[0].a[0].endswith('recv')):
            return True
        return a.op == 'zero' and a.a[0] is mk('len', s)
    for n_ in ([1, 2, 3] if any(a.op == 'neg' and only_len(a.a[0], mk('len', s)) for a in atoms_of(pc)) else []):
        v = eval_lin(pc, {mk('len', s): n_})
        C.decide('chosen:%s:always' % var, v is not FALSE, e.loc(), 'a path is chosen if %d paths are found' % n_)
    free = [a for a in atoms_of(pc) if not harmless(a) and not any(a is b for b, _ in counting) and not (a.op == 'neg' and only_len(a.a[0], mk('len', s)))]
    C.decide('chosen:%s:always' % var, not free, e.loc(), 'a found path is always chosen%s' % (', but only if %s' % show(free[0], 5) if free else ''), decidable=all(known(a, ('call', 'phi')) for a in free))
    if var != 'Explorator':
        C.decide('chosen:%s:path' % var, val.op == 'vfld' and val.a[0] is s, e.loc(), 'the path found is chosen: %s' % show(val, 3), decidable=known(val, ('call', 'phi')))
    else:
        if val.op == 'idx' and val.a[0] is s:
            die = val.a[1]
            lo = hi = None
            if die.op == 'call' and die.a[0].endswith('::sample') and die.a[2][0].op == 'agg':
                lo, hi = (list(die.a[2][0].a[4]) + [None, None])[:2]
            draws = [y for y in subterms(die) if y.op == 'call' and y.a[0].endswith('::sample') and y.a[2][0].op == 'agg']
            if len(draws) == 1 and die is not draws[0]:
                a0, a1 = (list(draws[0].a[2][0].a[4]) + [None, None])[:2]
                for n_ in (1, 2, 3, 10, 100, 1000):
                    h0, h1 = (cint(rebuild(E, y, pre={mk('len', s): I(n_)})) if y is not None else None for y in (a0, a1))
                    if h0 is None or h1 is None or h1 - h0 > 4000:
                        C.undec('chosen:%s:die' % var, e.loc(), show(die, 4))
                        break
                    got_ = {cint(rebuild(E, die, pre={draws[0]: I(v_), mk('len', s): I(n_)})) for v_ in range(h0, h1)}
                    C.decide('chosen:%s:die' % var, got_ == set(range(n_)), e.loc(), 'every one of %d found paths can be drawn, and nothing else' % n_, decidable=None not in got_)
            elif lo is I(0) and hi is not mk('len', s):
                for n_ in (1, 2, 3):
                    h = cint(rebuild(E, hi, pre={mk('len', s): I(n_)}))
                    C.decide('chosen:%s:die' % var, h == n_, e.loc(), 'one of %d found paths is drawn, from 0..%s' % (n_, h), decidable=h is not None)
            else:
              C.decide('chosen:%s:die' % var, lo is I(0) and hi is mk('len', s), e.loc(), 'one of the found paths is drawn: %s' % show(die, 4), decidable=(lo is not None and known(lo, ('call', 'phi')) and known(hi, ('call', 'phi'))) or cint(die) is not None)
            seeds = [x for x in E.eff if x.kind == 'call' and x.name.endswith('seed_from_u64')]
            for x in seeds:
                C.decide('chosen:%s:seed' % var, x.vals[0] is fld(work, WORK, 'seed'), x.loc(), 'the random numbers follow the seed of the work: %s' % show(x.vals[0], 4), decidable=known(x.vals[0]))
        else:
            C.undec('chosen:%s:path' % var, e.loc(), show(val, 3))


def only_len(t, n):
    return t is n or t.op == 'lin' and [x for x, _ in t.a[1]] == [n]


def counter_times(E, a):
    """n - i for the test phi < n (or phi != n) of a counter that starts with i and is increased by 1; None if this is not what is tested"""
    t = a.a[0]
    if t.op != 'lin':
        return None
    ph = [(x, k) for x, k in t.a[1] if x.op == 'phi']
    if len(ph) != 1:
        return None
    p, k = ph[0]
    i, nx = E.phi_ops.get(p, (None, None))
    if nx is None or cint(i) is None:
        return None
    steps = {cint(isub(y, p)) for c, y in leaves(nx)}
    rest = isub(t, imul(I(k), p))
    if steps == {1} and k == 1:
        return isub(imul(I(-1), rest), i)
    if steps == {-1} and k == -1 and a.op == 'neg':
        return isub(i, rest)
    return None


def _all_is(E, v, adt, w):
    c = TRUE
    for s in free_subjects([v], adt):
        c = AND(c, E.is_(s, adt, w))
    return c


def master(C):
    root = MT + 'Master::work_off'
    E = C.run(root, key='NI', no_inline=NI)
    if E is None:
        return
    G = mk('arg', 2)
    for c, x in leaves(E.ret):
        if variant_of(x) != 'Ok' or c is FALSE:
            continue
        t = tup(E.proj(x, ('vf', 'Ok', '0', RESULT)))
        if t is None or len(t) != 2:
            C.undec('result', root, show(x, 3))
            continue
        # the loop ends only when no worker is left
        rcv = [s for a in atoms_of(c) for s in subterms(a) if s.op == 'call' and s.a[0].endswith('::recv')]
        C.decide('end', bool(rcv) and AND(c, ok_pc(E, rcv[0])) is FALSE, root, 'the result is given only after every worker has finished', decidable=bool(rcv))
        w, paths = t
        # workloads
        chain, p = [], w
        while p.op == 'phi' and p in E.phi_ops:
            chain.append(p)
            p = E.phi_ops[p][0]
        C.decide('workload:initial', p.op == 'repeat' and p.a[0] is I(0) or is_empty(p), root, 'workloads start with 0: %s' % show(p, 4), decidable=p.op == 'repeat')
        if p.op == 'repeat':
            C.decide('workload:length', p.a[1].op == 'len' and p.a[1].a[0].op == 'fld' and p.a[1].a[0].a[2] in ('fwd_dsts', 'bwd_dsts', 'edge_ids') and p.a[1].a[0].a[0] is G, root, 'there is a workload for every edge of the graph: %s' % show(p.a[1], 4), decidable=known(p.a[1]))
        stores = []
        todo, seen = [w], set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v.op == 'phi' and v in E.phi_ops:
                todo += [y for y in E.phi_ops[v] if y is not None]
            elif v.op == 'ite':
                todo += list(v.a[1:])
            elif v.op == 'store':
                stores.append(v)
                todo.append(v.a[0])
        if len(stores) != 1:
            C.decide('workload:counts', False, root, '%d places change a workload' % len(stores), decidable=not stores and known(w, ('phi',)))
        for s in stores:
            base, k, val = s.a[:3]
            d = isub(val, idx(base, k))
            C.decide('workload:counts', d is I(1), root, 'an edge counts once per path: %s' % show(d, 4), decidable=cint(d) is not None or any(cint(y) is not None for c_, y in leaves(val)) or known(d, ('phi',)))
            fl = set(calls_to(k, FLAT))
            if len(fl) != 1:
                C.decide('workload:flat', False, root, 'the edges of a path are counted without unpacking it: %s' % show(k, 5), decidable=not fl and contains(k, lambda y: y.op == 'fld' and y.a[2] == 'chosen_paths') and contains(k, lambda y: y.op == 'fld' and y.a[2] == 'edges') and not any(y.op == 'call' and not y.a[0].endswith(('::recv', '::try_recv', '::next')) for y in subterms(k)))
                continue
            fl = fl.pop()
            r = [x for x in subterms(k) if x.op == 'rng' and not contains(fl, lambda y: y is x)]
            ok = len(r) == 1 and r[0].a[2].op == 'len' and contains(r[0].a[2], lambda y: y is fl) and contains(k, lambda y: y.op == 'fld' and y.a[2] == 'edges') and contains(k, lambda y: y.op == 'idx' and y.a[1] is r[0])
            C.decide('workload:edge', ok, root, 'every edge of the path is counted: %s' % show(k, 5), decidable=known(k, ('call', 'phi')))
            C.decide('workload:flat', fl.a[2][1] is G, root, 'paths are unpacked in the graph of the routes', decidable=known(fl.a[2][1]))
            src = fl.a[2][0]
            okp_ = True
            for cc, y in leaves(src):
                okp_ = okp_ and y.op == 'idx' and y.a[1].op == 'rng' and all(z.op == 'fld' and z.a[2] == 'chosen_paths' for _, z in leaves(y.a[0])) and (all(z.op == 'len' for _, z in leaves(y.a[1].a[2])) or y.a[1].a[2].op == 'count' and y.a[1].a[2].a[0].a[:1] == ('opq',) and y.a[1].a[2].a[0].a[1] is y.a[0])
            C.decide('workload:path', okp_, root, 'every chosen path of an outcome is counted: %s' % show(src, 4), decidable=False)
        each = [e for e in E.eff if e.kind in ('store', 'push') and any(a.op == 'more' and contains(a, lambda y: y.op == 'fld' and y.a[2] == 'chosen_paths') for a in atoms_of(e.pc))]
        for e in each:
            odd = [a for a in atoms_of(e.pc) if a.op != 'more' and contains(a, lambda y: y.op == 'idx' and y.a[1].op == 'rng' and contains(y.a[0], lambda z: z.op == 'fld' and z.a[2] in ('chosen_paths', 'edges'))) and not (a.op == 'zero' and a.a[0].op == 'len')]
            C.decide('workload:always' if e.kind == 'store' else 'collected:always', not odd, e.loc(), 'every chosen path is %s%s' % ('counted' if e.kind == 'store' else 'collected', ', but only if %s' % show(odd[0], 5) if odd else ''), decidable=all(known_but(a, ('recv',)) for a in odd))
        goes_on(C, E, each, 'workload:loop')
        # collected paths
        for cc, v in leaves(paths):
            pushes = [e for e in E.eff if e.kind == 'push' and calls_to(e.vals[1], FLAT)]
            for e in pushes:
                C.decide('collected:path', e.vals[1].op == 'call' and e.vals[1].a[0] == FLAT, e.loc(), 'the unpacked path is collected')
        init = paths
        while init.op == 'phi' and init in E.phi_ops:
            init = E.phi_ops[init][0]
        for var, care in (('Some', _arg_true(4)), ('None', NOT(_arg_true(4)))):
            vs = {variant_of(y) for cc, y in leaves(restrict(init, care)) if AND(cc, care) is not FALSE}
            C.decide('collected:' + var, vs == {var}, root, 'paths are collected iff this is asked for: %s' % sorted(map(str, vs)), decidable=None not in vs)
    distribution(C, E, root)
    recv(C)


def _arg_true(i):
    return cond(mk('arg', i))


def distribution(C, E, root):
    sends = [e for e in E.eff if e.kind == 'call' and e.name.startswith('std::sync::mpsc::') and e.name.endswith('::send')]
    joins = [e for e in E.eff if e.kind == 'call' and e.name.endswith('JoinHandle::<T>::join')]
    for e in sends:
        work = e.vals[1]
        ps = field(E, work, WORK, 'route_pairs')
        sp = {x for x in subterms(ps) if x.op == 'call' and x.a[0].endswith(('::splice', '::drain', '::split_off'))}
        if len(sp) != 1:
            C.undec('sent:pairs', e.loc(), show(ps, 4))
            continue
        sp = sp.pop()
        if ps.op == 'collect':
            r, cnd, el = ps.a[0], ps.a[1], ps.a[2]
            full = r.op == 'rng' and r.a[2] is mk('len', sp) and cnd is TRUE and el.op == 'idx' and el.a[0] is sp and (el.a[1] is r or isub(isub(r.a[2], I(1)), r) is el.a[1])
            d = isub(r.a[2], mk('len', sp)) if r.op == 'rng' else None
            C.decide('sent:pairs', full, e.loc(), 'everything taken from the list is sent: %s' % show(ps, 6), decidable=d is not None and cint(d) is not None and cint(d) < 0 or known(el, ('call', 'phi')) and d is not None and (cint(d) is not None or known(r.a[2], ('call',))))
        elif ps is sp:
            C.ok('sent:pairs', e.loc(), 'everything taken from the list is sent')
        else:
            C.undec('sent:pairs', e.loc(), show(ps, 4))
        if sp.a[0].endswith('::splice'):
            rep = sp.a[2][2]
            C.decide('sent:removed', is_empty(rep), e.loc(), 'sent pairs leave the list: %s' % show(rep, 3), decidable=known(rep))
        lst = sp.a[2][0]
        src = E.phi_ops[lst][0] if lst in E.phi_ops else lst
        while src.op in ('reversed', 'mut') and src.a:
            src = src.a[0] if src.op == 'reversed' else src.a[2]
        C.decide('sent:from', src is mk('arg', 1), e.loc(), 'all given pairs are distributed: %s' % show(src, 3), decidable=known(src))
        empty = [a for a in atoms_of(e.pc) if a.op == 'zero' and contains(a, lambda x: x is lst)]
        C.decide('sent:while', bool(empty) and implies(e.pc, NOT(_atom(empty[0]))), e.loc(), 'work is sent as long as pairs are left', decidable=bool(empty))
        for j in joins:
            if e.loops == j.loops:
                C.decide('dropped:while', AND(j.pc, NOT(_atom(empty[0]))) is FALSE if empty else False, j.loc(), 'a worker is dropped only if no pairs are left', decidable=bool(empty))
        # pairs are given to the worker whose outcome arrived
        tgt = e.vals[0]
        for c, v in leaves(tgt, e.pc):
            ks = [x.a[1] for x in subterms(v) if x.op == 'idx']
            C.decide('sent:to', any(contains(k, lambda x: x.op == 'call' and x.a[0].endswith('recv')) for k in ks), e.loc(), 'the worker that reported gets the work: %s' % show(v, 5), decidable=bool(ks) and all(known(k) for k in ks))
    if not sends:
        C.undec('sent:pairs', root, 'no sending found')
    # failures of workers are handed on
    res = [j for j in joins]
    for j in res:
        sw = swallowed_(E, j)
        C.decide('failure', sw is False, j.loc(), 'the failure of a worker is handed on', decidable=sw is not None)
    left = [j for j in joins if j.loops and not any(s.loops == j.loops for s in sends)]
    C.decide('failure:left', bool(left), root, 'workers that are still there at the end are asked for their failure', decidable=bool(joins) and len(joins) == 1)


def swallowed_(E, j):
    """False if an unsuccessful join makes the result a failure"""
    a = [x for x in subterms((E.ret,)) if x.op == 'call' and x.a[0].endswith('join')]
    v = j.val
    if v is None:
        return None
    care = AND(j.pc, NOT(E.is_(v, RESULT, 'Ok')))
    vs = {variant_of(x) or ('Err' if AND(care, c, E.is_(x, RESULT, 'Ok')) is FALSE else None) for c, x in ret_under(E, care) if x is not UNDEF}
    on = j.loops and j.loops[-1] in E.back_pc and AND(E.back_pc[j.loops[-1]], care) is not FALSE and not any(q is not None and contains(q, lambda x: x is v) for q_ in E.phi_ops.values() for q in q_)
    if vs == {'Ok'} or on:
        return True
    if any(x is v for x in a) or contains(E.ret, lambda x: x is v):
        return False
    # nothing is done with it: no effect, no value, no condition mentions it
    used = any(x is not j and x.kind not in ('enter', 'leave', 'drop') and contains((x.pc, x.vals or (), x.val if isinstance(x.val, T) else ()), lambda y: y is v) for x in E.eff)
    used = used or any(contains(n, lambda y: y is v) for i, n in E.phi_ops.values() if n is not None) or any(contains(c, lambda y: y is v) for c in E.back_pc.values())
    return None if used else True


def recv(C):
    pass


def p25(pid, tier):
    C = Check(pid, tier, 'the values sent between master and workers are followed from the list of route-pairs to the counters of the edges: what a worker does with a work, what the master does with an outcome, and how the list is distributed')
    worker(C)
    master(C)
    return C.finish(min_ok=20)


CHECKS['P25'] = p25


# ------------------------------------------------------------------ P26
from fractions import Fraction

UPD = 'osmgraphing::defaults::balancing::update_new_metric'
BCFG = 'osmgraphing::configs::balancing::Config'
OPT = 'osmgraphing::configs::balancing::Optimization'
METH = 'osmgraphing::configs::balancing::OptimizationMethod'
SP = 'osmgraphing::balancing::simulation_pipeline::'


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def ratfun(t, names, depth=0):
    """a term of real arithmetic as a fraction of polynomials in its other subterms (exact arithmetic; rounding is not the subject)"""
    def atom(x):
        names.setdefault(x, len(names))
        return {(names[x],): Fraction(1)}, {(): Fraction(1)}
    if depth > 60:
        return atom(t)
    if t.op == 'c':
        try:
            return {(): Fraction(str(t.a[1]))} if Fraction(str(t.a[1])) else {}, {(): Fraction(1)}
        except (ValueError, TypeError):
            return atom(t)
    if t.op == 'cast' and t.a[0] == 'float':
        x = t.a[1]
        if x.op == 'lin':
            r = {(): Fraction(x.a[0])} if x.a[0] else {}
            for y, k in x.a[1]:
                n, d = ratfun(mk('cast', 'float', y), names, depth + 1)
                r = padd(r, pmul(n, {(): Fraction(k)}))
            return r, {(): Fraction(1)}
        if cint(x) is not None:
            return ({(): Fraction(cint(x))} if cint(x) else {}), {(): Fraction(1)}
        return atom(t)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul', 'Div'):
        (an, ad), (bn, bd) = ratfun(t.a[1], names, depth + 1), ratfun(t.a[2], names, depth + 1)
        if t.a[0] == 'Mul':
            return pmul(an, bn), pmul(ad, bd)
        if t.a[0] == 'Div':
            return pmul(an, bd), pmul(ad, bn)
        return padd(pmul(an, bd), pmul(bn, ad), 1 if t.a[0] == 'Add' else -1), pmul(ad, bd)
    return atom(t)


def same_number(a, b):
    names = {}
    (an, ad), (bn, bd) = ratfun(a, names), ratfun(b, names)
    return padd(pmul(an, bd), pmul(bn, ad), -1) == {}


def entry(E, lst, i, depth=0):
    """what a list holds at a position after loops that change every entry by itself; None if this is not known"""
    if depth > 30:
        return None
    if lst.op == 'ite':
        a, b = entry(E, lst.a[1], i, depth + 1), entry(E, lst.a[2], i, depth + 1)
        return None if a is None or b is None else ITE(lst.a[0], a, b)
    if lst.op == 'collect' and lst.a[1] is TRUE:
        return expand(E, rebuild(E, lst.a[2], pre={lst.a[0]: i}), depth + 1)
    if lst.op == 'phi' and E.phi_ops.get(lst, (None, None))[1] is not None:
        init, nx = E.phi_ops[lst]
        old = entry(E, init, i, depth + 1)
        if old is None:
            return None
        out = None
        for c, v in leaves(nx):
            if v is lst:
                x = idx(lst, i)
                r = None
            elif v.op == 'store' and v.a[0] is lst and v.a[1].op == 'rng' and loopkey(v.a[1]) == loopkey(lst):
                r, x = v.a[1], v.a[2]
            else:
                return None
            rs = [y for y in subterms((c, x)) if y.op == 'rng' and loopkey(y) == loopkey(lst)]
            pre = {y: i for y in rs}
            x = rebuild(E, x, pre=pre)
            c = rebuild(E, c, pre=pre)
            x = rebuild(E, x, pre={idx(lst, i): old})
            c = rebuild(E, c, pre={idx(lst, i): old})
            if contains((x, c), lambda y: y is lst):
                return None
            out = x if out is None else ITE(c, x, out)
        return expand(E, out, depth + 1)
    return idx(lst, i)


def list_len(E, lst):
    while True:
        if lst.op == 'phi' and lst in E.phi_ops:
            lst = E.phi_ops[lst][0]
        elif lst.op == 'ite' and list_len(E, lst.a[1]) is list_len(E, lst.a[2]):
            lst = lst.a[1]
        elif lst.op == 'collect' and lst.a[1] is TRUE and lst.a[0].op == 'rng':
            return lst.a[0].a[2]
        else:
            return mk('len', lst)


CANON = mk('sym', 'entry')


def expand(E, t, depth=0):
    """replaces entries of lists built by loops, and sums over them"""
    pre = {}
    for x in subterms(t):
        if x.op == 'idx' and x.a[0].op in ('phi', 'collect', 'ite'):
            v = entry(E, x.a[0], x.a[1], depth + 1)
            if v is not None and v is not x:
                pre[x] = v
        elif x.op == 'sum' and x.a[0].op == 'rng':
            r = x.a[0]
            body = expand(E, rebuild(E, x.a[3], pre={r: CANON}), depth + 1)
            pre[x] = mk('sum', rebuild(E, r.a[2], pre={y: list_len(E, y.a[0]) for y in subterms(r.a[2]) if y.op == 'len'}), x.a[1], x.a[2], body)
        elif x.op == 'len' and x.a[0].op in ('phi', 'collect', 'ite'):
            pre[x] = list_len(E, x.a[0])
    return rebuild(E, t, pre=pre) if pre else t


def update(C):
    E = C.run(UPD)
    if E is None or not C.has_field('osmgraphing::network::graph::Graph', 'metrics', 'means'):
        return
    if not C.has_field(BCFG, 'min_new_metric', 'optimization', 'is_err_when_metric_is_zero') or not C.has_field(OPT, 'method', 'metric_id'):
        C.undec('formula', UPD, 'other configuration')
        return
    it, W, G, cfg = (mk('arg', i) for i in range(4))
    okc = FALSE
    for c, x in leaves(E.ret):
        if variant_of(x) == 'Ok':
            okc = OR(okc, c)
    g1 = E.final.mem.get(('A', 2))
    GR = 'osmgraphing::network::graph::Graph'
    mets = restrict(E.proj(g1, ('f', 'metrics', GR)), okc)
    meth = fld(fld(cfg, BCFG, 'optimization'), OPT, 'method')
    minv = fld(cfg, BCFG, 'min_new_metric')
    i = mk('sym', 'edge')
    for var in [x['name'] for x in C.P.variants(METH)]:
        for mn in ('Some', 'None'):
            OPTION = 'core::option::Option'
            care = AND(okc, E.is_(meth, METH, var), E.is_(minv, OPTION, mn))
            m = restrict(mets, care)
            key = '%s:%s' % (var, 'min' if mn == 'Some' else 'plain')
            facts_ = {}
            for y in C.P.variants(METH):
                facts_[E.is_(meth, METH, y['name'])] = B(y['name'] == var)
            for y in ('Some', 'None'):
                facts_[E.is_(minv, OPTION, y)] = B(y == mn)
            facts_ = {k: w for k, w in facts_.items() if k.op == 'is'}

            def settle_(t):
                return restrict(rebuild(E, t, pre=facts_), care)
            if m.op != 'phi' or E.phi_ops.get(m, (None, None))[1] is None:
                C.undec(key, UPD, 'metrics are not changed by one loop: %s' % show(m, 3))
                continue
            init, nx = E.phi_ops[m]
            if not (init is fld(G, GR, 'metrics') and nx.op == 'store' and nx.a[0] is m and nx.a[1].op == 'rng' and nx.a[2].op == 'store' and nx.a[2].a[0] is idx(m, nx.a[1])):
                skip = [c for c, y in leaves(nx) if y is m]
                why = [a for c in skip for a in atoms_of(c) if a.op in ('flt', 'fle', 'ord')]
                C.decide(key, False, UPD, 'metrics are not changed entry by entry: %s' % show(nx, 4), decidable=bool(why) and nx.op == 'ite')
                continue
            r, col, val = nx.a[1], nx.a[2].a[1], nx.a[2].a[2]
            C.decide(key + ':column', col.op == 'first' and contains(col, lambda x: x is fld(fld(cfg, BCFG, 'optimization'), OPT, 'metric_id')) and contains(col, lambda x: x.op == 'fld' and x.a[2] == 'ids' and contains(x, lambda y: y is G)), UPD, 'the metric with the configured id is changed: %s' % show(col, 5), decidable=known(col, ('first', 'eq')))
            n = r.a[2]
            n = n.a[0].a[0] if n.op == 'count' else n
            x = settle_(expand(E, settle_(rebuild(E, val, pre={r: i}))))
            col_ = rebuild(E, col, pre={r: i})
            old = idx(idx(fld(G, GR, 'metrics'), i), col_)
            wl = mk('cast', 'float', idx(W, i))
            wc = mk('cast', 'float', idx(W, CANON))
            nn = mk('len', W)
            zero = [y for y in subterms(x) if y.op == 'sum' and y.a[3] is wc]
            if not zero:
                C.decide(key + ':normalised', False, UPD, 'workloads are divided by their mean: %s' % show(x, 6), decidable=False)
                continue
            s = zero[0]
            C.decide(key + ':mean', s.a[0] is nn and s.a[1] is TRUE and flz(s.a[2]), UPD, 'the mean is that of all workloads', decidable=True)
            mean = mk('bin', 'Div', s, mk('cast', 'float', nn))

            def new(w, o):
                rel = mk('bin', 'Div', w, mean)
                if var == 'ExplicitEuler':
                    k = E.proj(meth, ('vf', 'ExplicitEuler', 'correction', METH))
                    return mk('bin', 'Add', o, mk('bin', 'Mul', mk('bin', 'Sub', rel, o), k))
                return mk('bin', 'Div', mk('bin', 'Add', mk('bin', 'Mul', mk('cast', 'float', it), o), rel), mk('bin', 'Add', mk('cast', 'float', it), mk('c', 'float', '1.0')))
            if var not in ('ExplicitEuler', 'Averaging'):
                C.undec(key, UPD, 'unknown method')
                continue
            # final = v / mean(v); v follows the method (and the minimum)
            if not (x.op == 'bin' and x.a[0] == 'Div'):
                parts_ = None
                for c, y in leaves(x):
                    parts_ = y if y.op == 'bin' and y.a[0] == 'Div' else None
                    break
            v, d = factored_mean(E, x)
            if v is None:
                C.decide(key + ':again', False, UPD, 'the new metric is divided by its mean: %s' % show(x, 5), decidable=False)
                continue
            u = new(wl, old)
            chk(C, E, key, v, u, minv, mn)
            vbody = d.a[3]
            C.decide(key + ':again', d.a[0] is nn and d.a[1] is TRUE and flz(d.a[2]) and vbody is rebuild(E, v, pre={i: CANON}), UPD, 'the mean of the second normalisation is that of the new values', decidable=known(vbody, ('first', 'eq', 'sum', 'sym', 'ord', 'merge')))
            # mean of the graph
            me = restrict(E.proj(E.proj(g1, ('f', 'means', GR)), ('vf', 'Some', '0', OPTION)), AND(care, E.is_(fld(G, GR, 'means'), OPTION, 'Some')))
            if me.op == 'store':
                C.decide(key + ':graph-mean:column', me.a[1] is col, UPD, 'the mean of the changed metric is replaced', decidable=known(me.a[1], ('first', 'eq')))
                mv = settle_(expand(E, settle_(me.a[2])))
                C.decide(key + ':graph-mean', same_number(mv, mk('bin', 'Div', d, mk('cast', 'float', nn))), UPD, 'the graph gets the mean of the new values: %s' % show(mv, 4), decidable=known(mv, ('first', 'eq', 'sum', 'sym', 'ord', 'merge', 'vfld')))
            else:
                C.decide(key + ':graph-mean', False, UPD, 'the mean of the graph stays as it is', decidable=me is E.proj(fld(G, GR, 'means'), ('vf', 'Some', '0', OPTION)))
    # zero-values
    for flag, nm in ((TRUE, 'refused'), (FALSE, 'accepted')):
        f = cond(fld(cfg, BCFG, 'is_err_when_metric_is_zero'))
        care = AND(E.is_(minv, 'core::option::Option', 'None'), f if flag is TRUE else NOT(f))
        cs = [c for c, x in ret_under(E, care) if variant_of(x) == 'Err']
        loops = [a for c in cs for a in atoms_of(c) if a.op == 'more']
        own = [a for c in cs for a in atoms_of(c) if any(y.op == 'more' for y in atoms_of(c)) and contains(a, lambda y: y is it) and not contains(a, lambda y: y.op in ('rng', 'phi', 'idx', 'sum'))]
        if flag is TRUE:
            C.decide('zero:always', not own, UPD, 'values that are not positive are refused in every iteration%s' % (', but only if %s' % show(own[0], 4) if own else ''), decidable=all(known(a, ('zero', 'neg')) for a in own))
        C.decide('zero:' + nm, bool(loops) == (flag is TRUE), UPD, 'values that are not positive are %s' % nm, decidable=all(variant_of(x) for c, x in leaves(E.ret)))


def flz(t):
    return t.op == 'c' and str(t.a[1]) in ('0.0', '0', '-0.0')


def factored_mean(E, x):
    """x = v / (sum / n), for every case of v"""
    v, d, bad = None, None, False
    for c, y in leaves(x):
        if y.op == 'bin' and y.a[0] == 'Div' and y.a[2].op == 'bin' and y.a[2].a[0] == 'Div' and y.a[2].a[1].op == 'sum':
            if d is not None and d is not y.a[2].a[1]:
                return None, None
            d = y.a[2].a[1]
            v = y.a[1] if v is None else ITE(c, y.a[1], v)
        else:
            return None, None
    return v, d


def chk(C, E, key, v, u, minv, mn):
    ls = list(leaves(v))
    if mn == 'None':
        for c, y in ls:
            C.decide(key, same_number(y, u), UPD, 'the new value follows the method: %s' % show(y, 7), decidable=known(y, ('first', 'eq', 'sum', 'sym')))
        return
    m = E.proj(minv, ('vf', 'Some', '0', 'core::option::Option'))
    got = set()
    for c, y in ls:
        if y is m:
            got.add('min')
            conds = [a for a in atoms_of(c)]
            if len(conds) == 1 and conds[0].op == 'ord':
                a = conds[0]
                pos = implies(c, _atom(a))
                x0, x1 = (undrop(z, ('Approx',)) for z in a.a[1:3])
                x0, x1 = (z.a[4][0] if z.op == 'agg' and len(z.a[4]) == 1 else z for z in (x0, x1))
                lower = a.a[0] in ('Le', 'Lt')
                small = x0 if lower == pos else x1
                big = x1 if lower == pos else x0
                C.decide(key + ':when', big is m and same_number(small, u), UPD, 'the minimum replaces smaller values: %s' % show(a, 5), decidable=x0 is m or x1 is m)
            elif len(conds) == 1 and conds[0].op in ('flt', 'fle'):
                a = conds[0]
                pos = implies(c, _atom(a))
                small, big = (a.a[0], a.a[1]) if pos else (a.a[1], a.a[0])
                C.decide(key + ':when', big is m and same_number(small, u), UPD, 'the minimum replaces smaller values: %s' % show(a, 5), decidable=known(a, ('first', 'eq', 'sum', 'sym', 'flt', 'fle')))
            else:
                C.undec(key + ':when', UPD, show(c, 5))
        else:
            got.add('val')
            C.decide(key, same_number(y, u), UPD, 'the new value follows the method: %s' % show(y, 7), decidable=known(y, ('first', 'eq', 'sum', 'sym')))
    C.decide(key + ':minimum', got == {'min', 'val'}, UPD, 'values are replaced by the minimum only if they are smaller', decidable=bool(got))


def p26(pid, tier):
    C = Check(pid, tier, 'the loops that compute the new metric are composed entry by entry, and the result is compared with the configured method as a rational function; configurations and files of an iteration are followed into the steps that use them')
    update(C)
    iterations(C)
    return C.finish(min_ok=20)


BAL = 'osmgraphing::balancing::'
IO = 'osmgraphing::io::'
STOP = ['osmgraphing::configs::routing::Config::try_from_yaml', 'osmgraphing::configs::parsing::Config::try_from_yaml', 'osmgraphing::configs::writing::network::graph::Config::try_from_yaml',
        'osmgraphing::configs::writing::network::edges::Config::try_from_yaml', 'osmgraphing::configs::balancing::Config::try_from_yaml',
        'osmgraphing::multi_ch_constructor::build', 'osmgraphing::multi_ch_constructor::construct_ch_graph', BAL + 'parse_graph', BAL + 'write_graph', BAL + 'write_edges',
        MT + 'Master::work_off', MT + 'Master::spawn_some', UPD, IO + 'parsing::routing::Parser::parse', IO + 'writing::smarts::Writer::write',
        IO + 'writing::evaluating_balance::Writer::write', SP + 'iter_dir']
MCFG = 'osmgraphing::multi_ch_constructor::configs::Config'


def args_by_type(f):
    """{type (without references): argument}, for the types of which there is one argument"""
    out = {}
    for k in range(f['argc']):
        t = f['locals'][k + 1].lstrip('&').replace('mut ', '')
        out[t] = None if t in out else mk('arg', k)
    return out


def step(C, name):
    f = C.fn(SP + name, None)
    if f is None:
        C.undec(name, SP + name, 'no such step')
        return None, {}
    return C.run(SP + name, key='steps', no_inline=STOP), args_by_type(f)


def calls(E, end):
    return [e for e in E.eff if e.kind == 'call' and e.name.endswith(end)]


def in_iter_dir(C, E, key, v, rest, loc, what):
    """v = iter_dir(..).join(rest)"""
    ok = v.op == 'call' and v.a[0].endswith('Path::join') and v.a[2][0].op == 'call' and v.a[2][0].a[0] == SP + 'iter_dir' and (rest is None or v.a[2][1] is rest)
    C.decide(key, ok, loc, '%s: %s' % (what, show(v, 4)), decidable=known(v, ('call',)))


def iterations(C):
    BC, US = BCFG, 'usize'
    E, A = step(C, 'prepare_iteration')
    if E is not None and A.get(BC) is not None and A.get(US) is not None and C.has_field(BC, 'iter_0_cfg', 'iter_i_cfg'):
        first = izero(A[US])
        for e in calls(E, 'fs::copy'):
            for nm, care in (('iter_0_cfg', first), ('iter_i_cfg', NOT(first))):
                got = restrict(e.vals[0], care)
                C.decide('config:' + nm, got is fld(A[BC], BC, nm), e.loc(), '%s iteration uses %s: %s' % ('the first' if nm[5] == '0' else 'a later', nm, show(got, 4)), decidable=known(got))
            in_iter_dir(C, E, 'config:to', e.vals[1], None, e.loc(), 'the configuration is put into the folder of the iteration')
    E, A = step(C, 'construct_ch_graph')
    if E is not None and A.get(BC) is not None and A.get(US) is not None and C.has_field(MCFG, 'dim', 'fmi_graph', 'ch_fmi_graph', 'cost_accuracy'):
        first = izero(A[US])
        base = fld(A[BC], BC, 'multi_ch_constructor')
        dim = fld(base, MCFG, 'dim')
        for e in calls(E, 'multi_ch_constructor::build') + calls(E, 'multi_ch_constructor::construct_ch_graph'):
            cfg = e.vals[0]
            nm = e.name.split('::')[-1]
            got = E.proj(cfg, ('f', 'dim', MCFG))
            C.decide('dim:%s:first' % nm, restrict(got, first) is isub(dim, I(1)), e.loc(), 'the first iteration contracts without the new metric: %s' % show(restrict(got, first), 4), decidable=known(got))
            C.decide('dim:%s:later' % nm, restrict(got, NOT(first)) is dim, e.loc(), 'later iterations contract with all metrics: %s' % show(restrict(got, NOT(first)), 4), decidable=known(got))
            acc = E.proj(cfg, ('f', 'cost_accuracy', MCFG))
            if nm == 'build':
                C.decide('accuracy', acc.op == 'c' and acc.a[0] == 'float' and float(acc.a[1]) == 1e-06, e.loc(), 'the contraction compares costs with the accuracy used here: %s' % show(acc, 4), decidable=known(acc))
            for x in ('fmi_graph', 'ch_fmi_graph'):
                in_iter_dir(C, E, 'files:%s:%s' % (nm, x), E.proj(cfg, ('f', x, MCFG)), fld(base, MCFG, x), e.loc(), '%s is that of the iteration' % x)
        C.decide('contracted', len(calls(E, 'multi_ch_constructor::construct_ch_graph')) >= 1, SP + 'construct_ch_graph', 'the graph is contracted', decidable=not any(e.kind == 'call' and 'multi_ch' in e.name for e in E.eff))
    E, A = step(C, 'read_in_routing_cfg')
    if E is not None and A.get(BC) is not None and A.get(US) is not None and C.has_field(RCFG, 'alphas', 'route_pairs_file'):
        first = izero(A[US])
        for c, x in leaves(E.ret):
            if variant_of(x) != 'Ok':
                continue
            r = E.proj(x, ('vf', 'Ok', '0', RESULT))
            al = E.proj(r, ('f', 'alphas', RCFG))
            rd = [y for y in subterms(al) if y.op == 'call' and y.a[0].endswith('try_from_yaml')]
            if not rd:
                C.undec('alphas', SP + 'read_in_routing_cfg', show(al, 4))
                continue
            orig = fld(E.proj(rd[0], ('vf', 'Ok', '0', RESULT)), RCFG, 'alphas')
            f0, f1 = restrict(al, AND(c, first)), restrict(al, AND(c, NOT(first)))
            C.decide('alphas:later', f1 is orig, SP + 'read_in_routing_cfg', 'later iterations route with the configured weights: %s' % show(f1, 4), decidable=known(f1, ('call',)))
            ok = f0.op == 'store' and f0.a[0] is orig
            C.decide('alphas:first', ok, SP + 'read_in_routing_cfg', 'the first iteration changes a weight: %s' % show(f0, 4), decidable=f0 is orig)
            if ok:
                k = f0.a[1]
                C.decide('alphas:first:which', contains(k, lambda y: y is fld(fld(A[BC], BC, 'optimization'), OPT, 'metric_id')) and k.op == 'first', SP + 'read_in_routing_cfg', 'the weight of the new metric is changed: %s' % show(k, 5), decidable=known(k, ('first', 'eq')))
                C.decide('alphas:first:zero', flz(f0.a[2]), SP + 'read_in_routing_cfg', 'the new metric is ignored: %s' % show(f0.a[2], 4), decidable=known(f0.a[2]))
    E, A = step(C, 'read_in_ch_graph')
    if E is not None:
        for e in calls(E, BAL + 'parse_graph'):
            v = E.proj(e.vals[0], ('f', 'map_file', 'osmgraphing::configs::parsing::Config'))
            in_iter_dir(C, E, 'read:map', v, None, e.loc(), 'the contracted graph of the iteration is read')
        # the files which are merged in are those of the iteration
        mg = [e for e in calls(E, 'Path::join') if e.loops and len(e.vals) == 2 and contains(e.vals[1], lambda y: y.op == 'vfld' and y.a[2] == 'from')]
        C.decide('read:merged', bool(mg), SP + 'read_in_ch_graph', 'merged files are those of the iteration', decidable=not any(contains(x, lambda y: y.op == 'vfld' and y.a[2] == 'from') for e in E.eff for x in (e.vals or ())) and not any(e.kind == 'call' and re.search(r'::(map|for_each|iter_mut)$', e.name) for e in E.eff))
        for e in mg:
            fr = [a for a in atoms_of(e.pc) if A.get(US) is not None and contains(a, lambda y: y is A[US]) and a.op in ('zero', 'eq', 'le', 'lt', 'bit')]
            C.decide('read:merged:always', all(AND(e.pc, _atom(a)) is not FALSE and AND(e.pc, NOT(_atom(a))) is not FALSE for a in fr), e.loc(), 'merged files are those of the iteration in every iteration')
            in_iter_dir(C, E, 'read:merged:dir', e.val, None, e.loc(), 'merged files are read from the folder of the iteration')
    E, A = step(C, 'balance')
    if E is not None and A.get(BC) is not None and A.get(US) is not None:
        wo = calls(E, 'Master::work_off')
        for e in wo:
            C.decide('step:pairs', any(x.op == 'call' and x.a[0].endswith('Parser::parse') for x in subterms(e.vals[1])), e.loc(), 'the routes of the file are worked off: %s' % show(e.vals[1], 4), decidable=known(e.vals[1], ('call',)))
        up = calls(E, UPD)
        C.decide('step:update', bool(up), SP + 'balance', 'the new metric is computed', decidable=bool(wo))
        for e in up:
            C.decide('step:update:iteration', e.vals[0] is A[US], e.loc(), 'with the number of the iteration: %s' % show(e.vals[0], 4), decidable=known(e.vals[0]))
            w = e.vals[1]
            C.decide('step:update:workloads', w.op == 'fld' and w.a[2] == '0' and any(x is y.val for y in wo for x in subterms(w)), e.loc(), 'with the workloads of the routes: %s' % show(w, 3), decidable=known(w, ('call',)))
        ex = calls(E, 'evaluating_balance::Writer::write')
        for e in ex:
            C.decide('step:export', any(x is y.val for y in wo for x in subterms(e.vals[0])) and e.vals[0].op == 'fld' and e.vals[0].a[2] == '0', e.loc(), 'the workloads are exported: %s' % show(e.vals[0], 3), decidable=known(e.vals[0], ('call',)))
        sm = calls(E, 'smarts::Writer::write')
        for e in sm:
            C.decide('step:vehicles', any(x.op == 'fld' and x.a[2] == '1' for x in subterms(e.vals[0])) and any(x is y.val for y in wo for x in subterms(e.vals[0])), e.loc(), 'the chosen paths are exported: %s' % show(e.vals[0], 3), decidable=False)
        for nm, xs in (('export', ex), ('vehicles', sm)):
            C.decide('step:%s:done' % nm, bool(xs), SP + 'balance', 'results are exported (%s)' % nm, decidable=bool(wo))
    f = C.fn(BAL + 'run', None)
    if f is None:
        C.undec('run', BAL + 'run', 'no such function')
        return
    names = ['prepare_iteration', 'write_multi_ch_graph', 'construct_ch_graph', 'read_in_ch_graph', 'read_in_routing_cfg', 'balance']
    E = C.run(BAL + 'run', key='run', no_inline=STOP + [SP + n for n in names + ['read_in_custom_graph', 'prepare_results']])
    if E is None:
        return
    seq = []
    for n in names:
        es = calls(E, SP + n)
        if len(es) != 1 or len(es[0].loops) != 1:
            C.undec('run:' + n, BAL + 'run', '%d calls' % len(es))
            return
        e = es[0]
        seq.append(e)
        it = [v for v in e.vals if v.op == 'rng' and loopkey(v) in e.loops]
        iters = [v for v in subterms(e.pc) if v.op == 'rng']
        if it:
            cnt = it[0].a[2]
            C.decide('run:%s:iterations' % n, contains(cnt, lambda y: y.op == 'fld' and y.a[2] == 'num_iter') and cnt.op == 'fld', e.loc(), 'every iteration is done: %s' % show(cnt, 4), decidable=known(cnt, ('mut', 'call')))
        C.decide('run:%s:number' % n, bool(it), e.loc(), 'with the number of the iteration', decidable=all(known(v, ('mut', 'call', 'phi')) for v in e.vals))
        extra = [a for a in atoms_of(e.pc) if a.op == 'zero' and any(y.op == 'rng' for y in subterms(a))]
        C.decide('run:%s:always' % n, all(AND(e.pc, _atom(a)) is not FALSE and AND(e.pc, NOT(_atom(a))) is not FALSE for a in extra), e.loc(), 'in every iteration')
    order = {id(e): k for k, e in enumerate(E.eff)}
    C.decide('run:order', [order[id(e)] for e in seq] == sorted(order[id(e)] for e in seq), BAL + 'run', 'write, contract, read, route, update: %s' % ', '.join(e.name.split('::')[-1] for e in sorted(seq, key=lambda e: order[id(e)])))
    wg = calls(E, BAL + 'write_graph')
    for e in wg:
        z = [a for a in atoms_of(e.pc) if a.op == 'zero' and any(y.op == 'rng' for y in subterms(a))]
        C.decide('run:store', len(z) == 1 and z[0].a[0].op == 'lin' and implies(e.pc, _atom(z[0])) and abs(z[0].a[0].a[0]) == 1 and contains(z[0], lambda y: y.op == 'fld' and y.a[2] == 'num_iter'), e.loc(), 'the balanced graph is stored in the last iteration', decidable=len(z) == 1)
        C.decide('run:store:before', order[id(e)] < order[id(seq[1])], e.loc(), 'before it is contracted again')
        C.decide('run:store:graph', e.vals[0] is seq[1].vals[1] or any(v is e.vals[0] for v in seq[1].vals), e.loc(), 'the stored graph is the one of the iteration', decidable=known(e.vals[0], ('phi', 'call', 'mut')))


CHECKS['P26'] = p26
