"""P24 written route-pairs, P28 reading route-pairs"""
import os, re
from .. import facts
from ..lib import *
from ..lib import _atom
from .io_write import Rows, g_, nidx
from .io_read import functional, lt, only_err, field as field_

CBP = 'osmgraphing::routing::dijkstra::Dijkstra::compute_best_path'
OPTION = 'core::option::Option'
GRAPHARR = 'node_ids'


def inner(t):
    """the number inside an index"""
    while t.op == 'agg' and t.a[0] == 'adt' and len(t.a[4]) == 1:
        t = t.a[4][0]
    return t


def tup(t):
    return t.a[4] if t.op == 'agg' and t.a[0] != 'adt' or (t.op == 'agg' and t.a[0] == 'adt' and len(t.a[4]) > 1) else None


def under(t, c):
    return restrict(t, c) if c is not TRUE else t


def p24(pid, tier):
    C = Check(pid, tier, 'the pairs pushed to the list of routes are followed from the drawn indices through the search to the written row: ids of exactly the searched nodes, only after a found path, source and destination differing, no pair twice; number of rows, seed and limit come from the configuration')
    root = 'osmgraphing::io::writing::routing::Writer::write'
    E = C.run(root, no_inline=(CBP,))
    if E is None:
        return C.finish(min_ok=8)
    ids = g_('node_ids')
    n = mk('len', ids)
    nn = imul(n, n)
    # rows
    rows = []
    for e in E.eff:
        if e.kind != 'write' or not e.loops:
            continue
        for c, ps in texts(e.vals[1], e.pc):
            b = body_parts(ps)
            vals = [p for p in b if p[0] == 'val']
            if len(vals) >= 2:
                rows.append((e, c, b, vals))
    lists = set()
    for e, c, b, vals in rows:
        a0, a1 = vals[0][2], vals[1][2]
        el = [x.a[0] if x.op == 'fld' else None for x in (a0, a1)]
        if el[0] is None or el[0] is not el[1] or el[0].op != 'idx':
            C.undec('row:element', e.loc(), show_parts(b))
            continue
        C.decide('row:columns', a0.a[2] == '0' and a1.a[2] == '1', e.loc(), 'a row starts with source and destination of the pair: %s' % show_parts(b))
        rest = ''.join(p[1] for p in b[b.index(vals[1]) + 1:] if p[0] == 'lit') if len(vals) == 2 else None
        if rest is not None:
            C.decide('row:count', rest.strip() == '1', e.loc(), 'every pair is written with the count 1: %r' % rest)
        lst, r = el[0].a
        while True:
            if lst.op in ('sorted', 'reversed'):
                lst = lst.a[0]
            elif lst.op == 'deduped':
                C.decide('rows:removed', lst.a[1] == 'dedup' or lst.a[2].op == 'idx' and lst.a[2].a[0] is lst.a[0], e.loc(), 'found pairs are removed again: %s' % show(lst, 3), decidable=lst.a[1] == 'dedup_by_key' and known(lst.a[2], ('phi', 'sorted', 'undef')))
                lst = lst.a[0]
            elif lst.op == 'mut' and lst.a[0].op == 'call' and lst.a[0].a[2] and re.search(r'Vec::<T, A>::(dedup|dedup_by_key|dedup_by|retain|retain_mut|truncate|drain|pop|remove|swap_remove)$', lst.a[0].a[0]):
                C.decide('rows:removed', lst.a[0].a[0].endswith('::dedup'), e.loc(), 'found pairs are removed again: %s' % show(lst.a[0], 3))
                lst = lst.a[0].a[2][0]
            else:
                break
        if r.op == 'rng':
            C.decide('rows:all', r.a[2] is mk('len', lst), e.loc(), 'every found pair is written: %s' % show(r.a[2], 4), decidable=known(r.a[2], ('phi', 'sorted')))
        else:
            C.undec('rows:all', e.loc(), show(r, 3))
        lists.add(lst)
        # announced number
        for w in E.eff:
            if w.kind == 'write' and not w.loops:
                for c2, ps in texts(w.vals[1], w.pc):
                    b2 = body_parts(ps)
                    if b2 and all(p[0] == 'val' or not p[1].strip() for p in b2):
                        v2 = [p for p in b2 if p[0] == 'val']
                        if len(v2) == 1:
                            t = v2[0][2]
                            q = t.a[0] if t.op == 'len' else None
                            while q is not None and q.op in ('sorted', 'reversed'):
                                q = q.a[0]
                            C.decide('announced', q is lst, w.loc(), 'the announced number is the number of rows: %s' % show(t, 5), decidable=known(t, ('phi', 'sorted', 'lin')))
    if not lists:
        C.undec('rows', root, 'no rows found')
    pushes = [e for e in E.eff if e.kind == 'push' and any(e.vals[0] is l or (l.op == 'phi' and e.vals[0].op == 'phi' and l.a[2:] == e.vals[0].a[2:]) for l in lists)]
    searches = [e for e in E.eff if e.kind == 'call' and e.name == CBP]
    adds = [e for e in E.eff if e.kind == 'baradd']
    if not pushes:
        C.undec('pairs', root, 'no pairs are added')
    for e in pushes:
        t = tup(e.vals[1])
        if t is None or len(t) != 2:
            C.undec('pair', e.loc(), show(e.vals[1], 4))
            continue
        for c, a in leaves(t[0], e.pc):
            if c is FALSE:
                continue
            for c, b in leaves(under(t[1], c), c):
                if c is FALSE:
                    continue
                if not (a.op == 'idx' and b.op == 'idx' and a.a[0] is ids and b.a[0] is ids):
                    C.decide('pair:ids', False, e.loc(), 'a pair consists of ids of nodes: %s, %s' % (show(a, 5), show(b, 5)), decidable=known(a, ('call', 'phi', 'mut')) and known(b, ('call', 'phi', 'mut')))
                    continue
                s, d = a.a[1], b.a[1]
                mode = 'random' if contains(s, lambda x: x.op == 'call' and x.a[0].endswith('sample')) else 'all'
                # the search
                good = bad = False
                for q in searches:
                    qv = q.vals[1]
                    f = lambda nm: under(field_(E, qv, 'osmgraphing::routing::dijkstra::Query', nm), c)
                    if qv.op != 'agg':
                        continue
                    qs, qd = under(inner(f('src_idx')), c), under(inner(f('dst_idx')), c)
                    call = [x for x in atoms_of(c) if x.op == 'is' and x.a[0].op == 'call' and x.a[0].a[0] == CBP]
                    some = any(implies(c, E.is_(x.a[0], OPTION, 'Some')) for x in call)
                    same = qs is s and qd is d and f('graph') is mk('arg', 0) and f('routing_cfg') is mk('arg', 1)
                    good = good or (same and some)
                    C.decide('pair:%s:searched' % mode, same, q.loc(), 'the path is searched from %s to %s, in the given graph with the given configuration' % (show(qs, 4), show(qd, 4)), decidable=known(qs, ('call', 'phi', 'mut', 'bin')) and known(qd, ('call', 'phi', 'mut', 'bin')))
                    C.decide('pair:%s:found' % mode, some, e.loc(), 'a pair is written only if a path was found', decidable=bool(not call or any(AND(c, NOT(E.is_(x.a[0], OPTION, 'Some'))) is not FALSE for x in call)))
                if not searches:
                    C.decide('pair:%s:found' % mode, False, e.loc(), 'a pair is written without searching a path')
                eq = E.eqvals(E.final, s, d)
                C.decide('pair:%s:differ' % mode, AND(c, eq) is FALSE, e.loc(), 'source and destination differ', decidable=True if eq is not TRUE else False)
                if mode == 'random':
                    ins = [x for x in atoms_of(c) if x.op == 'call' and x.a[0].endswith('::insert')]
                    other = [x for x in E.eff if x.kind in ('call', 'dedup') and re.search(r'(dedup|contains|entry|get)', x.name)]
                    sets = {x.vals[0] for x in E.eff if x.kind in ('call', 'insert') and x.vals and x.name.endswith('insert')}
                    used = any(contains(a, lambda t: t in sets) for a in atoms_of(c))
                    if not ins:
                        C.decide('pair:twice', False, e.loc(), 'a pair drawn again is not written again', decidable=not other and not used)
                    for x in ins:
                        k = tup(x.a[2][1]) if len(x.a[2]) > 1 else None
                        if k is None or len(k) != 2:
                            # another kind of key: it has to tell the pairs apart
                            y = under(x.a[2][1], c) if len(x.a[2]) > 1 else None
                            vals = {}
                            for p in range(4):
                                for q in range(4):
                                    if p != q and y is not None:
                                        vals[(p, q)] = rebuild(E, y, pre={s: I(p), d: I(q), n: I(4)})
                            if not vals or any(v.op != 'c' for v in vals.values()):
                                C.undec('pair:twice', e.loc(), show(x, 4))
                                continue
                            C.decide('pair:twice', implies(c, _atom(x)) and len(set(vals.values())) == len(vals), e.loc(), 'drawn pairs are remembered one by one: %s' % show(y, 5))
                            continue
                        k0, k1 = under(inner(k[0]), c), under(inner(k[1]), c)
                        C.decide('pair:twice', implies(c, _atom(x)) and {k0, k1} == {s, d}, e.loc(), 'a pair is written only if it was not drawn before: (%s, %s)' % (show(k0, 4), show(k1, 4)), decidable=True)
                    for x in (s, d):
                        call = [y for y in subterms(x) if y.op == 'call' and y.a[0].endswith('sample')]
                        if x.op == 'call' and x.a[0].endswith('sample'):
                            rg = x.a[2][0]
                            lo, hi = (field_(E, rg, 'core::ops::range::Range', 'start'), field_(E, rg, 'core::ops::range::Range', 'end')) if rg.op == 'agg' else (None, None)
                            if lo is not None:
                                C.decide('pair:drawn', lo is I(0) and hi is n, e.loc(), 'every node can be drawn: %s to %s' % (show(lo, 3), show(hi, 4)), decidable=known(lo) and known(hi))
                else:
                    # all pairs: position / n and position % n
                    m = [(x, y) for x in (s,) for y in (d,) if x.op == 'bin' and y.op == 'bin']
                    if not m:
                        C.undec('pair:all', e.loc(), '%s, %s' % (show(s, 4), show(d, 4)))
                    else:
                        okd = s.a[0] in ('Div', 'Rem') and d.a[0] in ('Div', 'Rem') and s.a[0] != d.a[0] and s.a[1] is d.a[1] and s.a[2] is n and d.a[2] is n
                        C.decide('pair:all', okd, e.loc(), 'the i-th pair has the nodes i / n and i %% n: %s, %s' % (show(s, 5), show(d, 5)), decidable=True)
                        pos = s.a[1]
                        if okd:
                            C.decide('pair:position', pos.op == 'fld' and pos.a[2] == 'attempts' or pos.op == 'rng' or (pos.op == 'phi' and E.phi_ops.get(pos, (None, None))[1] is iadd(pos, I(1))), e.loc(), 'i counts the tried pairs: %s' % show(pos, 5), decidable=pos.op == 'fld' and pos.a[2] == 'successes')
        # the limit
        for lk in [l for l in e.loops[-1:]]:
            bp = E.back_pc.get(lk)
            if bp is None or not adds:
                C.undec('limit', root, 'no counter of successes')
                continue
            tr = OR(*[x.pc for x in adds if x.vals[1] is TRUE])
            al = OR(*[x.pc for x in adds])
            C.decide('limit:counted', restrict(tr, e.pc) is TRUE, e.loc(), 'every written pair counts as success: %s' % show(restrict(tr, e.pc), 4), decidable=all(x.vals[1] in (TRUE, FALSE) for x in adds))
            C.decide('limit:tried', restrict(al, bp) is TRUE, e.loc(), 'every pair counts as tried: %s' % show(restrict(al, bp), 4))
            succ = [x for x in subterms(bp) if x.op == 'fld' and x.a[2] == 'successes']
            att = [x for x in subterms(bp) if x.op == 'fld' and x.a[2] == 'attempts']
            mc = [x for x in subterms(bp) if x.op == 'vfld' and x.a[2] == 'max_count']
            if succ and mc:
                # at most the requested number: no further pair once the requested number of successes is reached
                for s0 in set(succ):
                    for m0 in set(mc):
                        for a0 in set(att):
                            # a graph of three nodes
                            f = lambda s1, a1, m1: rebuild(E, bp, pre={s0: I(s1), a0: I(a1), m0: I(m1), nn: I(9), n: I(3)})
                            for mode, ms in (('some', (1, 4, 8)), ('all', (9, 12))):
                                bad = [(s1, a1, m1) for m1 in ms for a1 in range(9) for s1 in range(min(a1 + 1, m1)) if f(s1, a1, m1) is FALSE]
                                C.decide('limit:continue:' + mode, not bad, e.loc(), 'pairs are tried until enough are found, and at least as many as are possible (found, tried, requested with three nodes: %s)' % (bad[:2],))
                        for a0 in set(att):
                            C.decide('limit:stop', AND(bp, NOT(lt(a0, m0)), lt(a0, nn), lt(s0, m0), lt(m0, nn)) is not FALSE, e.loc(), 'a requested pair is looked for until as many pairs are tried as are possible')
                            C.decide('limit:all', AND(bp, lt(a0, nn), lt(s0, nn), NOT(lt(m0, nn))) is not FALSE, e.loc(), 'all pairs are tried if all are requested')
            else:
                C.decide('limit:max', False, e.loc(), 'the number of written pairs is limited by the requested number', decidable=bool(not succ and not mc))
    # seed
    seeds = [e for e in E.eff if e.kind == 'call' and e.name.endswith('seed_from_u64')]
    for e in seeds:
        v = e.vals[0]
        C.decide('seed', v.op == 'vfld' and v.a[2] == 'seed', e.loc(), 'random pairs depend on the configured seed: %s' % show(v, 4), decidable=known(v, ('vfld', 'call')))
    ent = [e for e in E.eff if e.kind == 'call' and NONDET.search(e.name) and not QUIET.search(e.name)]
    C.decide('reproducible', not ent, ent[0].loc() if ent else root, 'no other source of randomness: %s' % (ent[0].name if ent else ''))
    if not seeds and not ent:
        C.undec('seed', root, 'no generator')
    return C.finish(min_ok=12)


NONDET = re.compile(r'(thread_rng|from_entropy|rand::random|getrandom|OsRng|SystemTime::now|thread::current|process::id|RandomState::new|from_rng)')
QUIET = re.compile(r'^(progressing|log|env_logger)::')


# ------------------------------------------------------------------ P28
def p28(pid, tier):
    C = Check(pid, tier, 'the columns of a route-pair line are followed into the pair; the range of lines follows the announced number; ids are looked up in the graph without mixing source and destination')
    RP = 'osmgraphing::io::parsing::routing::routes::Parser'
    TR = 'osmgraphing::io::parsing::routing::Parsing'
    PRE = '<%s as %s>::preprocess' % (RP, TR)
    PAR = '<%s as %s>::parse_route_pairs' % (RP, TR)
    E = C.run(PRE)
    if E is not None and C.has_field(RP, 'route_lines'):
        self0 = E.final.mem.get(('A', 0))
        for c, x in leaves(E.ret):
            if variant_of(x) != 'Ok' or c is FALSE:
                continue
            rl = restrict(E.proj(self0, ('f', 'route_lines', RP)), c)
            s, e = field_(E, rl, 'core::ops::range::Range', 'start'), field_(E, rl, 'core::ops::range::Range', 'end')
            cnt = isub(e, s)
            def popped(t):
                return t.op == 'vfld' and t.a[0].op == 'call' and t.a[0].a[0].endswith('pop') and t.a[0].a[2][0].op == 'phi'

            def last_of(t):
                # list[list.len() - 1] of an accumulated list
                return t.op == 'idx' and t.a[0].op == 'phi' and iadd(t.a[1], I(1)).op == 'len' and iadd(t.a[1], I(1)).a[0] is t.a[0]
            good = popped(cnt) or last_of(cnt)
            first = cnt.op == 'idx' and cnt.a[0].op == 'phi' and cint(cnt.a[1]) is not None
            C.decide('lines:count', good, PRE, 'the number of lines is the last announced number: %s' % show(cnt, 5),
                     decidable=first or cint(cnt) is not None or cnt.op == 'phi' or (cnt.op == 'lin' and any(popped(t) or last_of(t) for t, k in cnt.a[1])))
            C.decide('lines:start', s.op == 'phi', PRE, 'routes start at the line counter: %s' % show(s, 5), decidable=known(s, ('phi',)))
            if s.op == 'phi' and E.phi_ops.get(s, (None, None))[1] is not None:
                i, nx = E.phi_ops[s]
                C.decide('lines:counter', i is I(0) and nx is iadd(s, I(1)), PRE, 'every functional line before the routes counts once: %s' % show(nx, 5), decidable=known(nx, ('phi',)))
        for e in E.eff:
            if e.kind == 'push' and e.vals[1].op == 'vfld':
                one = [a for a in atoms_of(e.pc) if a.op == 'zero' and contains(a, lambda t: t.op == 'call' and 'split_whitespace' in t.a[0])]
                C.decide('lines:announced', bool(one), e.loc(), 'a number standing alone in its line is the announced one', decidable=False)
    E = C.run(PAR)
    if E is not None:
        rngv = fld(mk('arg', 0), RP, 'route_lines')
        pushes = [e for e in E.eff if e.kind == 'push']
        for e in pushes:
            t = tup(e.vals[1])
            if t is None or len(t) != 2:
                C.undec('row', e.loc(), show(e.vals[1], 4))
                continue
            src = field_(E, t[0], 'osmgraphing::network::routes::RoutePair', 'src')
            dst = field_(E, t[0], 'osmgraphing::network::routes::RoutePair', 'dst')
            for nm, v, k in (('src', src, 0), ('dst', dst, 1), ('count', t[1], 2)):
                for c, x in leaves(v, e.pc):
                    pos = parsed_at(x)
                    if pos is None and x.op == 'cast':
                        # read as a number of another kind
                        at = parsed_at(x.a[1])
                        if at is not None:
                            ty = x.a[1].a[0].a[1]
                            C.decide('row:%s:kind' % nm, not (ty and ty[0] in ('f32', 'f64')), e.loc(), '%s of column %d is read as %s, so other values are accepted than whole numbers' % (nm, at, ty), decidable=bool(ty))
                            pos = at
                    elif pos is not None and x.a[0].a[1]:
                        ty = x.a[0].a[1][0]
                        C.decide('row:%s:kind' % nm, ty not in ('f32', 'f64', 'i8', 'u8', 'i16', 'u16') + (() if nm == 'count' else ('i32', 'u32', 'u64', 'usize')), e.loc(), '%s is read as %s' % (nm, ty))
                    C.decide('row:' + nm, pos == k, e.loc(), '%s is column %d of the line: %s' % (nm, k, show(x, 6)), decidable=pos is not None or cint(x) is not None)
            con = [a for a in atoms_of(e.pc) if a.op == 'call' and a.a[0].endswith('contains') and a.a[2][0] is rngv]
            if con:
                ln = con[0].a[2][1]
                C.decide('row:in-range', implies(e.pc, _atom(con[0])), e.loc(), 'only the announced lines are routes')
                if ln.op == 'phi' and E.phi_ops.get(ln, (None, None))[1] is not None:
                    i, nx = E.phi_ops[ln]
                    bp = E.back_pc.get(loopkey(ln), TRUE)
                    nx = restrict(nx, bp)
                    C.decide('row:line-number', i is I(0) and nx is iadd(ln, I(1)), e.loc(), 'lines are counted one by one: %s' % show(nx, 5), decidable=known(nx, ('phi',)))
                    lst = e.vals[0]
                    # every line in the range becomes a pair, or the file is rejected
                    if lst.op == 'phi' and E.phi_ops.get(lst, (None, None))[1] is not None:
                        nl = E.phi_ops[lst][1]
                        for c, v in leaves(nl, AND(bp, _atom(con[0]))):
                            if c is not FALSE:
                                C.decide('row:each', v.op == 'push' and v.a[0] is lst, e.loc(), 'each announced line becomes one pair, in order: %s' % show(v, 4), decidable=v is lst or v.op in ('push', 'insert', 'inserted'))
                    # fewer lines than announced
                    end = fld(rngv, 'core::ops::range::Range', 'end')
                    few = lt(ln, end)
                    out = [(c, x) for c, x in ret_under(E, few) if variant_of(x) == 'Ok']
                    C.decide('announced', not out, PAR, 'a file with fewer routes than announced makes the parser fail',
                             decidable=not any(a.op in ('neg', 'zero') and contains(a, lambda t: t is rngv or (t.op == 'phi' and t is not ln and t.a[:2] == ln.a[:2])) for c, x in out for a in atoms_of(c) if a not in atoms_of(few)))
            else:
                C.undec('row:in-range', e.loc(), 'no test against the range of lines')
            # malformed rows
            for k in (1, 2, 4):
                w = width_cond(E, e.pc, k)
                if w is None:
                    C.undec('row:width:%d' % k, e.loc(), 'number of columns of a line')
                else:
                    C.decide('row:width:%d' % k, w, e.loc(), 'a line with %d columns is no route' % k, decidable=k < 3)
    # ids of a pair
    for f, how in (('osmgraphing::network::routes::RoutePair::<i64>::into_idx', 'idx_from'), ('osmgraphing::network::routes::RoutePair::<i64>::into_node', 'create_from'), ('osmgraphing::network::routes::RoutePair::<osmgraphing::network::graph::indexing::NodeIdx>::into_node', 'create')):
        g = C.P.find(f)
        if not g:
            cand = [h for h in C.P.fns.values() if h['path'].startswith('osmgraphing::network::routes::') and h['path'].endswith(f.split('>::')[-1])]
            if not cand:
                continue
        NA = "osmgraphing::network::graph::NodeAccessor::<'a>::" + how
        E = C.run(f, no_inline=(NA,))
        if E is None:
            continue
        for nm in ('src', 'dst'):
            v = field_(E, E.ret, 'osmgraphing::network::routes::RoutePair', nm)
            want = fld(mk('arg', 0), 'osmgraphing::network::routes::RoutePair', nm)
            calls = [t for t in subterms(v) if t.op == 'call' and t.a[0] == NA]
            C.decide('lookup:%s:%s' % (f.split('::')[-1], nm), len(calls) == 1 and calls[0].a[2][1] is want, f, '%s of the pair is the node with its id: %s' % (nm, show(v, 6)), decidable=known(v, ('call', 'vfld')) and bool(calls))
            for c, x in leaves(v):
                if len(calls) == 1 and not contains(x, lambda t: t is calls[0]):
                    C.decide('lookup:%s:%s:missing' % (f.split('::')[-1], nm), False, f, 'an id without node is refused, not replaced by %s' % show(x, 5), decidable=known(x, ('call', 'vfld')) and c is not TRUE)
    functional(C)
    return C.finish(min_ok=10)


def width_cond(E, pc, k):
    """whether `pc` excludes lines of k columns"""
    ls = {t for a in atoms_of(pc) for t in subterms(a) if t.op == 'len' and t.a[0].op == 'call' and 'split' in t.a[0].a[0]}
    if len(ls) != 1:
        return None
    l = ls.pop()
    return cond(rebuild(E, pc, pre={l: I(k)})) is FALSE


def parsed_at(v):
    """column of the line a value is parsed from"""
    if v.op == 'vfld' and v.a[1] in ('Ok', 'Some') and v.a[0].op == 'call' and v.a[0].a[0].endswith('parse'):
        x = v.a[0].a[2][0]
        if x.op == 'idx' and contains(x.a[0], lambda y: y.op == 'call' and 'split_whitespace' in y.a[0]):
            return cint(x.a[1])
    return None


# ------------------------------------------------------------------ P30
PATH = 'osmgraphing::routing::paths::Path'


def p30(pid, tier):
    C = Check(pid, tier, 'every text written for a vehicle or an edge is followed back to the path or the edge of its row; conditions and order of the writes decide which nodes are written')
    smarts(C)
    external(C)
    workloads(C)
    return C.finish(min_ok=10)


def smarts(C):
    root = 'osmgraphing::io::writing::smarts::Writer::write'
    E = C.run(root)
    if E is None:
        return
    okc = ok_assumption(E)
    ids, fwd, bwd = g_('node_ids', 1), g_('fwd_dsts', 1), g_('bwd_dsts', 1)
    paths = mk('arg', 0)
    if not (C.has_field(PATH, 'src_idx') and C.has_field(PATH, 'dst_idx') and C.has_field(PATH, 'edges')):
        C.undec('vehicles', root, 'fields of a path')
        return
    node = lambda t: idx(ids, nidx(t))
    p = mk('idx', paths, V('r'))
    writes = []
    for n, e in enumerate(E.eff):
        if e.kind == 'write' and e.loops:
            for c, ps in texts(e.vals[1], e.pc):
                vals = [q[2] for q in ps if q[0] == 'val']
                lit = ''.join(q[1] if q[0] == 'lit' else '\0' for q in ps)
                writes.append((n, e, c, lit, vals))
    sid, did = node(fld(p, PATH, 'src_idx')), node(fld(p, PATH, 'dst_idx'))
    rows = [w for w in writes if '<vehicle' in w[3]]
    if not rows:
        C.undec('vehicles', root, 'no vehicle is written')
    pr = None
    for n, e, c, lit, vals in rows:
        # the id of the vehicle
        if len(vals) != 2:
            C.undec('vehicle:id', e.loc(), lit)
            continue
        m = match(sid, vals[0])
        m = match(did, vals[1], m) if m is not None else None
        C.decide('vehicle:id', m is not None, e.loc(), 'the id of a vehicle is "source->destination" of its path: %s, %s' % (show(vals[0], 6), show(vals[1], 6)), decidable=all(known(v) for v in vals))
        rr = [t for v in vals for t in subterms(v) if t.op == 'rng']
        if rr:
            pr = rr[0]
            C.decide('vehicles:all', pr.a[2] is mk('len', paths), e.loc(), 'every path is written: %s' % show(pr.a[2], 4), decidable=known(pr.a[2]))
            r = restrict(c, AND(okc, _atom(mk('more', pr))))
            C.decide('vehicles:each', r is TRUE, e.loc(), 'every path is written: %s' % show(r, 4), decidable=known(r))
    if pr is None:
        return
    path = mk('idx', paths, pr)
    edges = fld(path, PATH, 'edges')
    first = last = None
    for n, e, c, lit, vals in writes:
        if '<node' not in lit:
            continue
        if len(vals) != 1:
            C.undec('node', e.loc(), lit)
            continue
        v = vals[0]
        er = [t for t in subterms(v) if t.op == 'idx' and t.a[0] is edges]
        if match(node(fld(path, PATH, 'src_idx')), v) is not None:
            kind, i = 'src', I(0)
        elif len(er) == 1 and match(node(idx(fwd, mk('fld', er[0], ANY, '0'))), v) is not None:
            kind, i = 'dst', er[0].a[1]
        elif len(er) == 1 and match(node(idx(bwd, mk('fld', er[0], ANY, '0'))), v) is not None:
            kind, i = 'src', er[0].a[1]
        else:
            C.decide('node:of-path', False, e.loc(), 'a node is the source or the destination of an edge of the path: %s' % show(v, 8), decidable=known(v))
            continue
        C.ok('node:of-path', e.loc(), show(v, 8))
        if kind == 'dst':
            last = n
            if i.op == 'rng':
                C.decide('node:all-edges', i.a[2] is mk('len', edges), e.loc(), 'every edge adds its destination: %s' % show(i.a[2], 4), decidable=known(i.a[2]))
                r = restrict(c, AND(okc, _atom(mk('more', pr)), _atom(mk('more', i))))
                C.decide('node:each-edge', r is TRUE, e.loc(), 'every edge adds its destination: %s' % show(r, 4), decidable=known(r, ('phi',)))
            else:
                C.undec('node:all-edges', e.loc(), show(i, 4))
        else:
            first = n
            if i.op == 'rng':
                # only for the first edge
                ph = [a for a in atoms_of(c) if a.op == 'phi']
                z = izero(i)
                r = restrict(c, AND(okc, _atom(mk('more', pr)), _atom(mk('more', i))))
                if len(ph) == 1 and E.phi_ops.get(ph[0], (None, None))[1] is not None:
                    init, nx = E.phi_ops[ph[0]]
                    f = _atom(ph[0])
                    lk = loopkey(ph[0])
                    good = (r is f and cond(init) is TRUE and restrict(cond(nx), E.back_pc.get(lk, TRUE)) is FALSE) or (r is NOT(f) and cond(init) is FALSE and restrict(cond(nx), E.back_pc.get(lk, TRUE)) is TRUE)
                    C.decide('node:source-once', good, e.loc(), 'the source is written for the first edge only: %s' % show(r, 4), decidable=all(known(x, ('phi',)) for x in (init, nx, r)))
                else:
                    C.decide('node:source-once', r is z, e.loc(), 'the source is written for the first edge only: %s' % show(r, 4), decidable=known(r) and (r is TRUE or contains(r, lambda t: t is i)))
            else:
                C.decide('node:source-once', i is I(0), e.loc(), 'the source is the one of the first edge: %s' % show(i, 4), decidable=known(i))
    C.decide('node:source', first is not None, root, 'the source of a path is written', decidable=last is not None)
    C.decide('node:destinations', last is not None, root, 'the destinations of all edges are written', decidable=first is not None)
    if first is not None and last is not None:
        C.decide('node:order', first < last, root, 'the source comes before the destinations')


def workloads(C):
    """what is exported after an evaluation"""
    root = 'osmgraphing::io::writing::evaluating_balance::Writer::write'
    W = 'osmgraphing::io::writing::network::edges::Writer::'
    CFGE = 'osmgraphing::configs::writing::network::edges::Config'
    E = C.run(root, key='workloads', no_inline=(W + 'write', W + 'write_external_values'))
    if E is None or not C.has_field(CFGE, 'ids', 'file'):
        return
    okc = ok_assumption(E)
    for nm in ('write', 'write_external_values'):
        es = [e for e in E.eff if e.kind == 'call' and e.name == W + nm]
        C.decide('export:' + nm, bool(es), root, 'the %s are written' % ('edges' if nm == 'write' else 'workloads'), decidable=not any(e.kind == 'call' and e.name.startswith(W) and e not in es for e in E.eff))
        for e in es:
            cfg = e.vals[-1]
            f = E.proj(cfg, ('f', 'file', CFGE))
            j = [y for y in subterms(f) if y.op == 'call' and y.a[0].endswith('Path::join')]
            C.decide('export:%s:dir' % nm, len(j) == 1 and contains(j[0].a[2][0], lambda y: y.op == 'fld' and y.a[2] == 'results_dir'), e.loc(), 'into the folder of the results: %s' % show(f, 5), decidable=known(f, ('call',)))
            if nm == 'write':
                continue
            C.decide('export:values', e.vals[0] is mk('arg', 0), e.loc(), 'the given values are written: %s' % show(e.vals[0], 4), decidable=known(e.vals[0]))
            ids = restrict(E.proj(cfg, ('f', 'ids', CFGE)), e.pc)
            if ids.op != 'agg' or ids.a[0] != 'array':
                C.undec('export:header', e.loc(), show(ids, 6))
                continue
            C.decide('export:header', len(ids.a[4]) == 2, e.loc(), 'the header names the id of the edge and its number of routes: %s' % show(ids, 6))
            for i, x in enumerate(ids.a[4]):
                C.decide('export:header:named', variant_of(x) == 'Some', e.loc(), 'column %d has a name: %s' % (i, show(x, 5)), decidable=variant_of(x) is not None)
                if i == 0 and variant_of(x) == 'Some':
                    y = x.a[4][0]
                    C.decide('export:header:id', y.op != 'c' and not contains(y, lambda z: z.op == 'c' and z.a[0] == 'str'), e.loc(), 'the first column is the id of the edge: %s' % show(y, 6), decidable=known(y, ('call', 'phi')))


def external(C):
    root = 'osmgraphing::io::writing::network::edges::Writer::write_external_values'
    E = C.run(root)
    if E is None:
        return
    okc = ok_assumption(E)
    values, cfg = mk('arg', 0), mk('arg', 2)
    CFGE = 'osmgraphing::configs::writing::network::edges::Config'
    ws = fld(cfg, CFGE, 'is_writing_shortcuts')
    hd = fld(cfg, CFGE, 'is_writing_header')
    idsf = fld(cfg, CFGE, 'ids')
    n = 0
    seen = set()
    for e in E.eff:
        if e.kind != 'write':
            continue
        for c, ps in texts(e.vals[1], e.pc):
            b = body_parts(ps)
            vals = [q[2] for q in b if q[0] == 'val']
            if contains(tuple(vals), lambda t: t is idsf) or (e.loops and not vals):
                C.decide('header:wanted', implies(c, hd), e.loc(), 'the header is written only if it is wanted', decidable=known(hd))
                if vals:
                    idv = [v for v in vals if contains(v, lambda t: t is idsf)]
                    one = [t for t in subterms(idv[0]) if t.op == 'idx' and t.a[0] is idsf] if len(idv) == 1 else []
                    C.decide('header:column', bool(one) and all(v in idv or v.op == 'phi' for v in vals), e.loc(), 'a header column is the configured id: %s' % show_parts(b), decidable=all(known(v, ('idx',)) for v in vals))
                    for t in one:
                        if ('header', t.a[1]) not in seen:
                            seen.add(('header', t.a[1]))
                            if t.a[1].op == 'rng':
                                separators(C, 'header:separator', [w for w in E.eff if w.kind == 'write'], t.a[1], root)
                elif b:
                    C.decide('header:ignored', b == [('lit', '_')] or not b[0][1].strip(), e.loc(), 'an ignored column is written as %s' % show_parts(b))
                continue
            if not e.loops or not vals:
                continue
            n += 1
            if len(vals) != 2:
                C.decide('value:columns', False, e.loc(), 'a row consists of id and value: %s' % show_parts(b), decidable=False)
                continue
            m = match(sm(idx(g_('edge_ids', 1), V('E'))), vals[0])
            m2 = match(idx(values, V('E')), vals[1])
            okk = m is not None and m2 is not None and m['E'] is m2['E']
            C.decide('value:edge', okk, e.loc(), 'a row has the id of an edge and the value of the same edge: %s' % show_parts(b), decidable=all(known(v, ('nth',)) for v in vals))
            if not okk:
                continue
            edge = m['E']
            off = g_('sc_offsets', 1)
            isc = NOT(izero(isub(idx(off, iadd(edge, I(1))), idx(off, edge))))
            rr = [t for t in subterms(edge) if t.op == 'rng']
            okl = len([1 for a in atoms_of(e.pc) if contains(a, lambda t: t.op == 'fld' and t.a[2] in ('sc_offsets', 'sc_edges'))]) <= 1 and bool(set(atoms_of(e.pc)) & set(atoms_of(isc)) or not contains(e.pc, lambda t: t.op == 'fld' and t.a[2] in ('sc_offsets', 'sc_edges')))
            C.decide('value:skip', AND(e.pc, isc, NOT(ws)) is FALSE, e.loc(), 'shortcuts are skipped if they are not wanted', decidable=okl)
            C.decide('value:shortcut', AND(e.pc, isc, ws) is not FALSE, e.loc(), 'shortcuts are written if they are wanted', decidable=okl)
            C.decide('value:plain', AND(e.pc, NOT(isc), NOT(ws)) is not FALSE and AND(e.pc, NOT(isc), ws) is not FALSE, e.loc(), 'other edges are always written', decidable=okl)
            for r in rr[:1]:
                cnt = r.a[2]
                names = [t.a[2] for t in subterms(cnt) if t.op == 'fld' and t.a[0] is mk('arg', 1)]
                C.decide('value:all', all(x in ('fwd_dsts', 'bwd_dsts', 'fwd_to_fwd_map', 'bwd_to_fwd_map', 'edge_ids', 'metrics') for x in names), e.loc(), 'rows run over all edges: %s' % show(cnt, 5), decidable=known(cnt) and cnt.op == 'len')
    if not n:
        C.undec('value:edge', root, 'no rows')


# ------------------------------------------------------------------ P29
AP = 'osmgraphing::approximating::Approx'
ORDERING = 'core::cmp::Ordering'


def forall(E, t):
    """(range, condition) if the truth value holds iff the condition holds for every element of the range"""
    t = cond(t)
    a = set(atoms_of(t))
    if t.op == 'phi' or (len(a) == 1 and next(iter(a)).op == 'phi'):
        p = next(iter(a)) if t.op != 'phi' else t
        if t is not _atom(p) or E.phi_ops.get(p, (None, None))[1] is None:
            return None
        i, n = E.phi_ops[p]
        n = cond(n)
        if cond(i) is not TRUE or AND(n, NOT(_atom(p))) is not FALSE:
            return ('partial', None, restrict(n, _atom(p)))
        r = restrict(n, _atom(p))
        rr = {x for x in subterms(r) if x.op == 'rng'}
        return ('all', rr.pop(), r) if len(rr) == 1 else None
    an = [x for x in a if x.op == 'any']
    if len(an) == 1 and len(a) == 1:
        if t is NOT(_atom(an[0])):
            return ('all', an[0].a[0], NOT(an[0].a[1]))
        return ('any', an[0].a[0], an[0].a[1])
    mo = [x for x in a if x.op == 'more']
    if len(mo) == 1 and mo[0].a[0].op == 'rng':
        m = _atom(mo[0])
        if restrict(t, NOT(m)) is TRUE:
            return ('all', mo[0].a[0], restrict(t, m))
    return None


def both(E, r, a, b):
    """does the range run over all elements of both lists?"""
    c = r.a[2]
    if c.op == 'ite':
        return all(v in (mk('len', a), mk('len', b)) for _, v in leaves(c))
    return c in (mk('len', a), mk('len', b)) or (c.op == 'minlen' and set(c.a) == {mk('len', a), mk('len', b)})


def p29(pid, tier):
    C = Check(pid, tier, 'the truth value or ordering returned by each comparison is brought into a normal form over the compared parts: which parts are compared, in which order, and which result follows from which outcome')
    SELF, OTHER = fld(mk('arg', 0), AP, '0'), fld(mk('arg', 1), AP, '0')
    if not C.has_field(AP, '0'):
        C.undec('wrapper', AP, 'another wrapper')
        return C.finish(min_ok=1)
    acc = None
    f64 = '<osmgraphing::approximating::Approx<f64> as core::cmp::'
    E = C.run(f64 + 'PartialEq>::eq')
    eqt = None
    if E is not None:
        t = eqt = cond(E.ret)
        at = list(atoms_of(t))
        w = f64 + 'PartialEq>::eq'
        diffs = {mk('bin', 'Sub', SELF, OTHER), mk('bin', 'Sub', OTHER, SELF)}
        if len(at) == 1 and at[0].op in ('fle', 'flt'):
            x, y = at[0].a
            big, small = (x, y)
            pos = t is _atom(at[0])
            if x.op == 'c' and y.op != 'c':
                big, small, pos = y, x, not pos
            if small.op == 'c':
                C.decide('float:direction', pos, w, 'two values are equal if they differ by less than the tolerance, not by more: %s' % show(t, 7))
                C.decide('float:both', any(contains(big, lambda z: z is d) for d in diffs), w, 'the difference of both values decides: %s' % show(big, 7), decidable=known(big, ('call',)) and not (contains(big, lambda z: z is SELF) and contains(big, lambda z: z is OTHER)))
                C.decide('float:abs', contains(big, lambda z: z.op == 'call' and z.a[0].endswith('::abs')), w, 'the size of the difference decides, whatever its sign: %s' % show(big, 7), decidable=not contains(big, lambda z: z.op == 'call' and not re.search(r'(round|floor|ceil|trunc)$', z.a[0])) and not contains(big, lambda z: z.op == 'bin' and z.a[0] == 'Mul' and z.a[1] is z.a[2]) and not contains(big, lambda z: z.op == 'ite'))
                acc = small.a[1]
                consts = {z.a[1] for z in subterms(t) if z.op == 'c' and z.a[0] == 'float'}
                C.decide('float:tolerance', consts == {'1e-06'}, w, 'the tolerance is the documented accuracy 1e-6: %s' % ', '.join(sorted(consts)), decidable=len(consts) == 1 and known(big, ('call',)))
            else:
                C.undec('float:tolerance', w, show(t, 6))
        else:
            C.decide('float:tolerance', False, w, show(t, 6), decidable=t in (TRUE, FALSE) or (len(at) == 1 and at[0].op == 'feq'))
    E = C.run(f64 + 'PartialOrd>::partial_cmp')
    if E is not None and eqt is not None:
        w = f64 + 'PartialOrd>::partial_cmp'
        raw(C, E, w, 'float:order', eqt, SELF, OTHER, True)
    E = C.run(f64 + 'Ord>::cmp')
    if E is not None and eqt is not None:
        raw(C, E, f64 + 'Ord>::cmp', 'float:total-order', eqt, SELF, OTHER, False)
    # options
    op = '<osmgraphing::approximating::Approx<core::option::Option<T>> as core::cmp::'
    sa = lambda E, t: E.is_(t, OPTION, 'Some')
    for fn, kind in (('PartialEq>::eq', 'eq'), ('PartialOrd>::partial_cmp', 'pcmp'), ('Ord>::cmp', 'cmp')):
        E = C.run(op + fn)
        if E is None:
            continue
        for a in (True, False):
            for b in (True, False):
                c = AND(sa(E, SELF) if a else NOT(sa(E, SELF)), sa(E, OTHER) if b else NOT(sa(E, OTHER)))
                for c2, v in leaves(E.ret, c):
                    key = 'option:%s:%s-%s' % (kind, 'some' if a else 'none', 'some' if b else 'none')
                    if a and b:
                        args = (mk('vfld', SELF, 'Some', '0'), mk('vfld', OTHER, 'Some', '0'))
                        pair(C, key, op + fn, v if kind != 'eq' else restrict(cond(E.ret), c), args, kind)
                    else:
                        want = {'eq': ('True' if a == b else 'False')}.get(kind) or ('Equal' if a == b else 'Less' if b else 'Greater')
                        got = ordering(v if kind != 'eq' else restrict(cond(E.ret), c))
                        C.decide(key, got == want, op + fn, 'no value is below every value: %s' % show(v, 4), decidable=got is not None)
    # lists
    for ty in ('&[T]', '&smallvec::SmallVec<A>'):
        sl = '<osmgraphing::approximating::Approx<%s> as core::cmp::' % ty
        nm = 'list' if ty == '&[T]' else 'small-list'
        E = C.run(sl + 'PartialEq>::eq')
        if E is not None:
            q = forall(E, E.ret)
            w = sl + 'PartialEq>::eq'
            if q is None:
                C.decide(nm + ':eq', False, w, 'lists are equal iff all their values are: %s' % show(E.ret, 5), decidable=cond(E.ret) in (TRUE, FALSE))
            else:
                k, r, c = q
                els = lambda r: (mk('idx', SELF, r), mk('idx', OTHER, r))
                if k == 'all':
                    e0 = cond(E.eqvals(E.final, *els(r)))
                    C.decide(nm + ':eq', c is e0, w, 'lists are equal iff all their values are: %s' % show(c, 5), decidable=known(c) and c is not e0)
                    C.decide(nm + ':eq:all', both(E, r, SELF, OTHER), w, 'all values are compared: %s' % show(r.a[2], 4), decidable=known(r.a[2], ('minlen',)))
                else:
                    C.decide(nm + ':eq', False, w, 'lists are equal iff all their values are: %s' % show(E.ret, 5), decidable=k == 'any' or c is not None)
        for fn, bad in (('le', 'Greater'), ('ge', 'Less')):
            E = C.run(sl + 'PartialOrd>::' + fn)
            if E is None:
                continue
            w = sl + 'PartialOrd>::' + fn
            q = forall(E, E.ret)
            if q is None or q[0] == 'partial':
                C.undec('%s:%s' % (nm, fn), w, show(E.ret, 5))
                continue
            k, r, c = q
            C.decide('%s:%s' % (nm, fn), k == 'all', w, 'every value has to be %s' % fn)
            if k != 'all':
                continue
            C.decide('%s:%s:all' % (nm, fn), both(E, r, SELF, OTHER), w, 'all values are compared: %s' % show(r.a[2], 4), decidable=known(r.a[2], ('minlen',)))
            calls = {x for x in subterms(c) if x.op == 'call' and x.a[0].endswith('partial_cmp')}
            if len(calls) != 1:
                C.undec('%s:%s:value' % (nm, fn), w, show(c, 5))
                continue
            cl = calls.pop()
            x, y = [strip_ap(z) for z in cl.a[2]]
            C.decide('%s:%s:value' % (nm, fn), x is mk('idx', SELF, r) and y is mk('idx', OTHER, r), w, 'values at the same position are compared: %s' % show(cl, 5), decidable=known(x) and known(y) and not (y is mk('idx', SELF, r) and x is mk('idx', OTHER, r)))
            some = E.is_(cl, OPTION, 'Some')
            o = mk('vfld', cl, 'Some', '0')
            for v in ('Less', 'Equal', 'Greater'):
                res = restrict(c, AND(some, E.is_(o, ORDERING, v)))
                flip = y is mk('idx', SELF, r)
                b = {'Less': 'Greater', 'Greater': 'Less'}[bad] if flip else bad
                C.decide('%s:%s:%s' % (nm, fn, v), res is B(v != b), w, 'a value comparing %s %s' % (v, 'decides against' if v == b else 'is allowed'), decidable=res in (TRUE, FALSE))
        E = C.run(sl + 'PartialOrd>::partial_cmp')
        if E is not None:
            w = sl + 'PartialOrd>::partial_cmp'
            an = {x for x in subterms(E.ret) if x.op == 'any'}
            if len(an) != 1:
                C.undec(nm + ':order', w, show(E.ret, 5))
                continue
            an = an.pop()
            r, c = an.a
            for c2, v in leaves(E.ret, _atom(an)):
                C.decide(nm + ':order:mixed', variant_of(v) == 'None', w, 'lists whose values compare differently have no order: %s' % show(v, 5), decidable=known(v, ('call',)))
            seen = False
            for c2, v in leaves(E.ret, NOT(_atom(an))):
                if v.op == 'call' and v.a[0].endswith('partial_cmp'):
                    seen = True
                    x, y = [strip_ap(z) for z in v.a[2]]
                    C.decide(nm + ':order:common', x.op == 'idx' and y.op == 'idx' and x.a[0] is SELF and y.a[0] is OTHER and x.a[1] is y.a[1], w, 'the order of lists is the common one of their values: %s' % show(v, 5), decidable=known(x) and known(y))
            if not seen:
                C.undec(nm + ':order:common', w, show(E.ret, 5))
    # coordinates
    co = '<osmgraphing::approximating::Approx<kissunits::geo::Coordinate> as core::cmp::PartialEq>::eq'
    E = C.run(co)
    if E is not None and eqt is not None:
        parts = []
        for f in ('lat', 'lon'):
            x, y = mk('fld', SELF, 'kissunits::geo::Coordinate', f), mk('fld', OTHER, 'kissunits::geo::Coordinate', f)
            parts.append(cond(rewrite(eqt, lambda t: x if t is SELF else y if t is OTHER else t)))
        v = cond(E.ret)
        C.decide('coordinate:eq', v is AND(*parts), co, 'coordinates are equal iff latitudes and longitudes are: %s' % show(v, 5), decidable=known(v, ('call',)) and (v in parts or v is OR(*parts) or len(atoms_of(v)) < 2))
    return C.finish(min_ok=20)


def strip_ap(t):
    while t.op == 'agg' and t.a[0] == 'adt' and t.a[1] == AP:
        t = t.a[4][0]
    return t


def ordering(v):
    """the constant result of a comparison"""
    if v is TRUE or v is FALSE:
        return 'True' if v is TRUE else 'False'
    if variant_of(v) == 'Some' and v.op == 'agg':
        v = v.a[4][0]
    return variant_of(v) if v.op == 'agg' else None


def pair(C, key, w, v, args, kind):
    if kind == 'eq':
        at = list(atoms_of(v))
        good = len(at) == 1 and at[0].op == 'eq' and {strip_ap(x) for x in at[0].a} == set(args) and v is _atom(at[0])
        C.decide(key, good, w, 'the values decide: %s' % show(v, 4), decidable=v in (TRUE, FALSE) or (len(at) == 1 and at[0].op == 'eq' and all(known(x) for x in at[0].a)))
    else:
        good = v.op == 'call' and [strip_ap(x) for x in v.a[2]] == list(args)
        dec = v.op == 'agg' or (v.op == 'call' and v.a[0].endswith('cmp') and all(known(x) for x in v.a[2]))
        C.decide(key, good, w, 'the values decide: %s' % show(v, 4), decidable=dec)


def unref(E, t):
    return rebuild(E, t, lambda x: mk('arg', x.a[0][1]) if x.op == 'ref' and x.a[0][0] == 'A' and x.a[1] == () else x)


def raw(C, E, w, key, eqt, a, b, opt):
    ret = unref(E, E.ret)
    for c, v in leaves(ret, eqt):
        C.decide(key + ':equal', ordering(v) == 'Equal', w, 'values equal up to the tolerance compare as equal: %s' % show(v, 5), decidable=known(v, ('call', 'vfld')))
    for c, v in leaves(ret, NOT(eqt)):
        if c is FALSE:
            continue
        x = v.a[0] if v.op == 'vfld' and v.a[1] == 'Some' else v
        if x.op == 'call' and re.search(r'(partial_cmp|total_cmp)$', x.a[0]):
            C.decide(key + ':other', [strip_ap(y) for y in x.a[2]] == [a, b], w, 'other values compare as they are, in this order: %s' % show(v, 5), decidable=all(known(y) for y in x.a[2]))
        else:
            o = ordering(v)
            C.decide(key + ':other', o in ('Less', 'Greater'), w, 'other values compare as they are: %s' % show(v, 5), decidable=o == 'Equal' or variant_of(v) == 'None' and not atoms_of(AND(c, NOT(eqt))) - set(atoms_of(eqt)))
            if o in ('Less', 'Greater'):
                l = lessthan(c, a, b)
                if l is not None:
                    C.decide(key + ':direction', l == o, w, 'other values compare as they are: %s if %s' % (o, show(c, 5)))


def lessthan(c, a, b):
    for at in atoms_of(c):
        if at.op in ('flt', 'fle') and set(at.a) == {a, b}:
            for truth, f in ((True, _atom(at)), (False, NOT(_atom(at)))):
                if implies(c, f):
                    return 'Less' if (at.a[0] is a) == truth else 'Greater'
    return None


# ------------------------------------------------------------------ P27
MC = 'osmgraphing::multi_ch_constructor::'
MCFG = MC + 'configs::Config'


def command(t):
    """(program, arguments, directory) of a built command; arguments None if not understood"""
    args, cwd = [], None
    while t.op == 'call':
        n = t.a[0]
        if n == 'std::process::Command::new':
            return t.a[2][0], args, cwd
        if n == 'std::process::Command::args':
            l = t.a[2][1]
            if l.op != 'agg' or l.a[0] != 'array':
                return None, None, None
            args = list(l.a[4]) + args
        elif n == 'std::process::Command::arg':
            args = [t.a[2][1]] + args
        elif n == 'std::process::Command::current_dir':
            cwd = cwd or t.a[2][1]
        elif not re.match(r'std::process::Command::(stdin|stdout|stderr|env)', n):
            break
        t = t.a[2][0]
    return None, None, None


def shown(t):
    """[literal text or printed value] of an argument"""
    if t.op == 'c' and t.a[0] == 'str':
        return [('lit', t.a[1])] if t.a[1] else []
    if t.op == 'fmt':
        out = []
        for p in t.a[0]:
            if p[0] == 'lit':
                out.append(('lit', p[1]))
            else:
                v = p[2]
                while v.op == 'call' and re.search(r'(to_string_lossy|to_string|display|to_owned|into_owned|as_ref)$', v.a[0]) and len(v.a[2]) == 1:
                    v = v.a[2][0]
                # width or precision alter the text of the value
                out.append(('val', v) if not p[3] else ('val', v, p[3]))
        return out
    v = t
    while v.op == 'call' and re.search(r'(to_string_lossy|to_string|display|as_os_str|to_owned|into_owned|as_ref)$', v.a[0]) and len(v.a[2]) == 1:
        v = v.a[2][0]
    return [('val', v)]


def _atom_of(c):
    a = list(atoms_of(c))
    return a[0] if len(a) == 1 else None


def p27(pid, tier):
    C = Check(pid, tier, 'the argument list of every started process is evaluated symbolically per option; the exit status of every process is followed into the result')
    for fn, flags, switches, keys in (
            ('build', {}, {}, {'GRAPH_DIM': 'dim', 'COST_ACCURACY': 'cost_accuracy'}),
            ('construct_ch_graph', {'--threads': 'num_threads', '--text': 'fmi_graph', '--percent': 'contraction_ratio', '--write': 'ch_fmi_graph'},
             {'--using-osm-ids': 'is_printing_osm_ids', '--external-edge-ids': 'is_using_external_edge_ids'}, {})):
        root = MC + fn
        E = C.run(root)
        if E is None:
            continue
        names = list(flags.values()) + list(switches.values()) + list(keys.values())
        if not all(C.has_field(MCFG, n) for n in names):
            C.undec(fn, root, 'fields of the configuration')
            continue
        opt = {n: fld(mk('arg', 0), MCFG, n) for n in names}
        runs = [e for e in E.eff if e.kind == 'call' and e.name in ('std::process::Command::status', 'std::process::Command::output')]
        if not runs:
            C.undec(fn, root, 'no process')
            continue
        if any(e.name == 'std::process::Command::spawn' for e in E.eff if e.kind == 'call'):
            C.undec(fn, root, 'process not awaited here')
            continue
        got = {}
        opaque = False
        for e in runs:
            prog, args, cwd = command(e.vals[0])
            if args is None:
                opaque = True
                continue
            sw = [n for n in switches.values()]
            for bits in range(1 << len(sw)):
                c = AND(*[_atom(opt[n]) if bits >> i & 1 else NOT(_atom(opt[n])) for i, n in enumerate(sw)]) if sw else TRUE
                alist = [shown(restrict(a, c)) for a in args]
                for i, a in enumerate(alist):
                    if len(a) == 1 and a[0][0] == 'lit':
                        l = a[0][1]
                        if l in flags and i + 1 < len(alist):
                            v = alist[i + 1]
                            got.setdefault(l, []).append((e, v, flags[l]))
                        if l in switches:
                            n = switches[l]
                            C.decide('%s:%s' % (fn, l), implies(c, _atom(opt[n])), e.loc(), '%s is passed only if %s' % (l, n))
                    k = a[0][1].rstrip('=') if a and a[0][0] == 'lit' else ''
                    k = k[2:] if k.startswith('-D') and len(k) > 2 else k
                    if k in keys and len(a) == 2:
                        got.setdefault(k, []).append((e, a[1:], keys[k]))
                lits = {a[0][1] for a in alist if len(a) == 1 and a[0][0] == 'lit'}
                for l, n in switches.items():
                    if implies(c, _atom(opt[n])):
                        C.decide('%s:%s' % (fn, l), l in lits, e.loc(), '%s is passed if %s' % (l, n), decidable=all(x[0] == 'lit' for a in alist for x in a if x[1] not in opt.values()))
        for k in list(flags) + list(keys):
            if k not in got:
                C.decide('%s:%s' % (fn, k), False, root, '%s is passed to the process' % k, decidable=not opaque)
            for e, v, n in got.get(k, []):
                ok = len(v) == 1 and v[0] == ('val', opt[n])
                C.decide('%s:%s' % (fn, k), ok, e.loc(), '%s is the configured %s: %s' % (k, n, ' '.join(x[1] if x[0] == 'lit' else show(x[1], 4) for x in v)), decidable=all(x[0] == 'lit' or known(x[1]) for x in v))
        # failing processes
        for i, e in enumerate(runs):
            st = e.val
            if st is None:
                continue
            suc = [t for x in E.eff if x.kind == 'call' and x.name == 'std::process::ExitStatus::success' and contains(x.vals[0], lambda y: y is st) for t in [x.val]]
            okr = E.is_(st, RESULT, 'Ok')
            for c, x in leaves(E.ret, AND(e.pc, NOT(okr))):
                C.decide('%s:not-started' % fn, variant_of(x) == 'Err', e.loc(), 'a process that cannot be started is an error: %s' % show(x, 4), decidable=variant_of(x) is not None)
            cod = [x.val for x in E.eff if x.kind == 'call' and x.name == 'std::process::ExitStatus::code' and contains(x.vals[0], lambda y: y is st)]
            if not suc and cod:
                # the exit status is looked at as a number
                some = E.is_(cod[0], OPTION, 'Some')
                num = E.proj(cod[0], ('vf', 'Some', '0', OPTION))
                for n in (None, 1, 2, 127, 255):
                    for c, x in leaves(E.ret, AND(e.pc, okr)):
                        r = AND(c, NOT(some)) if n is None else eval_lin(AND(c, some), {num: n})
                        if r is FALSE:
                            continue
                        rest = [a for a in atoms_of(r) if contains(a, lambda y: y is cod[0]) and a is not _atom_of(some)]
                        C.decide('%s:failed' % fn, variant_of(x) == 'Err', e.loc(), 'a process ending %s is an error: %s' % ('without a status' if n is None else 'with %d' % n, show(x, 4)), decidable=not rest and variant_of(x) is not None)
                continue
            if not suc:
                other = [x for x in E.eff if x.kind == 'call' and x is not e and x.vals and contains(tuple(x.vals), lambda y: y is st)]
                C.decide('%s:failed' % fn, False, e.loc(), 'a process ending without success is an error', decidable=not other)
                continue
            s0 = _atom(suc[0])
            out = leaves(E.ret, AND(e.pc, okr, NOT(s0)))
            for c, x in out:
                C.decide('%s:failed' % fn, variant_of(x) == 'Err', e.loc(), 'a process ending without success is an error: %s' % show(x, 4), decidable=variant_of(x) is not None)
            for f in runs[i + 1:]:
                C.decide('%s:order' % fn, AND(f.pc, OR(NOT(okr), NOT(s0))) is FALSE, f.loc(), 'no further step after a failed one', decidable=AND(f.pc, okr) is not FALSE)
        okall = ok_assumption(E)
        out = [x for c, x in ret_under(E, okall) if variant_of(x) == 'Ok']
        C.decide('%s:success' % fn, bool(out), root, 'success is reported if everything succeeds')
    return C.finish(min_ok=12)


# ------------------------------------------------------------------ P31
PG = 'osmgraphing::io::parsing::network::graph::'
PN = 'osmgraphing::configs::parsing::nodes::'
PE_ = 'osmgraphing::configs::parsing::edges::'
GE = 'osmgraphing::configs::parsing::generating::edges::'


def p31(pid, tier):
    C = Check(pid, tier, 'the result of the tests made before a map is read is evaluated for every missing or superfluous part of the configuration, and the choice of the reader or writer for every file-extension')
    for k in ('fmi', 'pbf'):
        preprocess(C, k)
    dispatch(C)
    return C.finish(min_ok=40)


def outcome(E, c):
    """possible variants of the result under a condition"""
    return {variant_of(x) for d, x in leaves(flags(E, E.ret), c) if d is not FALSE}


def preprocess(C, k):
    root = '<%s%s::Parser as %sParsing>::preprocess' % (PG, k, PG)
    E = C.run(root)
    if E is None:
        return
    ret = flags(E, E.ret)
    okc = cond(E.is_(ret, RESULT, 'Ok'))
    at = list(atoms_of(okc))
    cfg = mk('arg', 1)
    for nm, adt, variant, f, leaf in (('NodeId', PN + 'MetaInfo', 'Meta', 'info', 'NodeId'), ('latitude', PN + 'metrics::UnitInfo', 'Metric', 'unit', 'Latitude'), ('longitude', PN + 'metrics::UnitInfo', 'Metric', 'unit', 'Longitude')):
        key = '%s:%s' % (k, nm)
        try:
            kinds = [v['name'] for v in C.P.variants(adt)]
            cats = [v['name'] for v in C.P.variants(PN + 'Category')]
        except Exception:
            C.undec(key, root, 'kinds of columns')
            continue
        best = None
        other = False
        for a in at:
            if a.op != 'any':
                other = other or a.op == 'phi' or contains(a, lambda t: t.op == 'fld' and t.a[2] == 'nodes')
                continue
            r, c = a.a
            els = {t for t in subterms(c) if t.op == 'idx' and t.a[0].op == 'fld' and t.a[0].a[2] == 'categories' and t.a[0].a[0].op == 'fld' and t.a[0].a[0].a[2] == 'nodes'}
            if len(els) != 1:
                other = True
                continue
            el = els.pop()
            sub = mk('vfld', el, variant, f)
            table = {}
            for cat in cats:
                if cat == variant:
                    for kd in kinds:
                        table[(cat, kd)] = restrict(c, AND(E.is_(el, PN + 'Category', cat), E.is_(sub, adt, kd)))
                else:
                    table[(cat, None)] = restrict(c, E.is_(el, PN + 'Category', cat))
            if table.get((variant, leaf)) is TRUE:
                good = all(v is FALSE for q, v in table.items() if q != (variant, leaf))
                if best is None or good:
                    best = (a, good, [q for q, v in table.items() if q != (variant, leaf) and v is not FALSE], r)
        if best is None:
            C.decide(key, False, root, 'a configuration without %s is refused' % nm, decidable=not other)
            continue
        a, good, more_, r = best
        C.decide(key, outcome(E, NOT(_atom(a))) <= {'Err'}, root, 'a configuration without %s is refused' % nm)
        C.decide(key + ':kind', good, root, 'only %s counts as %s: %s' % (leaf, nm, more_), decidable=all(restrict(a.a[1], TRUE) is not None for _ in (1,)))
        C.decide(key + ':all', r.a[2].op == 'len' and r.a[2].a[0].op == 'fld' and r.a[2].a[0].a[2] == 'categories', root, 'all columns are looked at: %s' % show(r.a[2], 4), decidable=known(r.a[2]))
    # number of metrics
    # the dimension the analysed tree is compiled with
    try:
        m = re.search(r'GRAPH_DIM: &str = "(\d+)"', open(os.path.join(facts.REPO, 'build.rs')).read())
    except OSError:
        m = None
    negs = [a for a in at if a.op == 'neg' and contains(a, lambda t: t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[2] in ('units', 'ids') and contains(t, lambda y: y.op == 'fld' and y.a[2] == 'metrics'))]
    if not negs:
        C.decide('%s:capacity' % k, False, root, 'more metrics than the graph has place for are refused', decidable=not any(contains(a, lambda y: y.op == 'fld' and y.a[2] == 'metrics') for a in at))
    for a in negs:
        us = {t for t in subterms(a) if t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[2] in ('units', 'ids')}
        sums = {t for t in subterms(a) if t.op in ('sum', 'countif')}
        if len(us) != 1 or len(sums) > 1:
            C.undec('%s:capacity' % k, root, show(a, 5))
            continue
        u = us.pop()
        n = int(m.group(1)) if m else None
        if n is not None:
            for gen in ((0,) if not sums else (0, 1, 3)):
                for d in (0, 1):
                    pre = {u: I(n - gen + d)}
                    if sums:
                        pre[next(iter(sums))] = I(gen)
                    v = rebuild(E, _atom(a), pre=pre)
                    if v in (TRUE, FALSE):
                        res = outcome(E, AND(_atom(a) if v is TRUE else NOT(_atom(a)), E.is_(fld(cfg, 'osmgraphing::configs::parsing::Config', 'generating'), OPTION, 'Some') if sums else NOT(E.is_(fld(cfg, 'osmgraphing::configs::parsing::Config', 'generating'), OPTION, 'Some'))))
                        if d:
                            C.decide('%s:capacity' % k, res <= {'Err'}, root, '%d metrics and %d generated ones are refused if there is place for %d' % (n - gen + d, gen, n))
                        else:
                            C.decide('%s:capacity:fits' % k, 'Ok' in res, root, '%d metrics and %d generated ones are accepted if there is place for %d' % (n - gen + d, gen, n))
                    else:
                        C.undec('%s:capacity' % k, root, show(a, 5))
        for s_ in sums:
            r, flt, init, val = s_.a if s_.op == 'sum' and len(s_.a) == 4 else (None, None, None, None)
            if r is None:
                C.undec('%s:capacity:generated' % k, root, show(s_, 4))
                continue
            els = {t for t in subterms(val) if t.op == 'idx' and t.a[1] is r}
            if len(els) != 1:
                C.undec('%s:capacity:generated' % k, root, show(s_, 4))
                continue
            el = els.pop()
            for v in [x['name'] for x in C.P.variants(GE + 'Category')]:
                if v == 'Merge':
                    continue
                for c, x in leaves(val, AND(flt, E.is_(el, GE + 'Category', v))):
                    n = cint(x)
                    want = 0 if v in ('Meta', 'Convert') else 1
                    C.decide('%s:capacity:generated:%s' % (k, v), n == want, root, '%s adds %s metric(s)' % (v, show(x, 3)), decidable=n is not None)
    # one shortcut-column only
    cnts = {t for a in at for t in subterms(a) if t.op == 'countif' and contains(t, lambda y: y.op == 'is' and y.a[1] == PE_ + 'MetaInfo')}
    if len(cnts) == 1:
        ct = cnts.pop()
        for n in range(0, 4):
            v = [(a, rebuild(E, _atom(a), pre={ct: I(n)})) for a in at if contains(a, lambda y: y is ct)]
            if not all(x in (TRUE, FALSE) for a, x in v):
                C.undec('%s:shortcuts:%d' % (k, n), root)
                continue
            res = outcome(E, AND(*[_atom(a) if x is TRUE else NOT(_atom(a)) for a, x in v]))
            if n in (0, 2):
                C.decide('%s:shortcuts:%d' % (k, n), 'Ok' in res or n == 2 and k == 'pbf', root, '%d columns of replaced edges are accepted' % n)
            else:
                C.decide('%s:shortcuts:%d' % (k, n), res <= {'Err'}, root, '%d columns of replaced edges are refused' % n)
        els = {t for t in subterms(ct.a[1]) if t.op == 'idx'}
        if len(els) == 1:
            el = els.pop()
            for v in [x['name'] for x in C.P.variants(PE_ + 'MetaInfo')]:
                x = restrict(ct.a[1], AND(E.is_(el, PE_ + 'Category', 'Meta'), E.is_(mk('vfld', el, 'Meta', 'info'), PE_ + 'MetaInfo', v)))
                C.decide('%s:shortcuts:kind:%s' % (k, v), x is B(v.startswith('ShortcutIdx')), root, '%s counts as column of a replaced edge: %s' % (v, show(x, 3)), decidable=x in (TRUE, FALSE))
    else:
        C.decide('%s:shortcuts' % k, False, root, 'a single column of replaced edges is refused', decidable=not any(contains(a, lambda t: t.op == 'is' and t.a[1] == PE_ + 'MetaInfo') for a in at) and k == 'fmi')
    # columns of pbf-maps
    if k == 'pbf':
        els = {t.a[0] for a in at for t in subterms(a) if t.op == 'is' and t.a[1] == PE_ + 'Category' and t.a[0].op == 'idx'}
        els = {t for t in els if any(a.op == 'more' and a.a[0] is t.a[1] for a in at) and not any(contains(a, lambda y: y is t) for a in at if a.op in ('any', 'zero'))}
        if len(els) != 1:
            an = [a for a in at if a.op == 'any' and contains(a, lambda t: t.op == 'is' and t.a[1] == PE_ + 'MetaInfo')]
            C.decide('pbf:columns', False, root, 'columns a pbf-map cannot provide are refused', decidable=not els and not an)
        else:
            el = els.pop()
            mo = _atom(mk('more', el.a[1]))
            for v in [x['name'] for x in C.P.variants(PE_ + 'MetaInfo')]:
                res = outcome(E, AND(mo, E.is_(el, PE_ + 'Category', 'Meta'), E.is_(mk('vfld', el, 'Meta', 'info'), PE_ + 'MetaInfo', v)))
                if v in ('SrcId', 'DstId'):
                    C.decide('pbf:columns:' + v, 'Ok' in res, root, '%s is accepted in pbf-maps' % v)
                else:
                    C.decide('pbf:columns:' + v, res <= {'Err'}, root, '%s is refused in pbf-maps' % v)
            for v in [x['name'] for x in C.P.variants(PE_ + 'metrics::UnitInfo')]:
                res = outcome(E, AND(mo, E.is_(el, PE_ + 'Category', 'Metric'), E.is_(mk('vfld', el, 'Metric', 'unit'), PE_ + 'metrics::UnitInfo', v)))
                if v in ('KilometersPerHour', 'LaneCount'):
                    C.decide('pbf:columns:' + v, 'Ok' in res, root, '%s is accepted in pbf-maps' % v)
                else:
                    C.decide('pbf:columns:' + v, res <= {'Err'}, root, '%s is refused in pbf-maps, which do not provide it' % v)
            cnt = el.a[1].a[2] if el.a[1].op == 'rng' else None
            if cnt is not None:
                C.decide('pbf:columns:all', cnt is mk('len', el.a[0]), root, 'all columns are looked at: %s' % show(cnt, 4), decidable=known(cnt))


def dispatch(C):
    FW = 'osmgraphing::io::writing::network::graph::fmi::Writer::write'
    for root, a, cfgt, keep, table in (
            (PG + 'Parser::parse', 0, 'osmgraphing::configs::parsing::Config', PG + 'Parsing::parse', {'pbf': 'pbf', 'fmi': 'fmi'}),
            (PG + 'Parser::parse_and_finalize', 0, 'osmgraphing::configs::parsing::Config', PG + 'Parsing::parse_and_finalize', {'pbf': 'pbf', 'fmi': 'fmi'}),
            ('osmgraphing::io::writing::network::graph::Writer::write', 1, 'osmgraphing::configs::writing::network::graph::Config', FW, {'fmi': 'fmi'})):
        E = C.run(root, no_inline=(keep,))
        if E is None:
            continue
        key = 'ext:' + root.split('::')[-1] + ('' if 'parsing' in root else '-map')
        ret = unref(E, E.ret)
        path = fld(mk('arg', a), cfgt, 'map_file')
        low = {t for t in subterms(ret) if t.op == 'call' and re.search(r'to_(ascii_)?lowercase$', t.a[0])}
        if len(low) != 1:
            raw = [t for t in subterms(ret) if t.op == 'eq' and any(y.op == 'vfld' and y.a[0].op == 'call' and y.a[0].a[0].endswith('to_str') for y in t.a)]
            if raw and not low:
                C.viol(key + ':case', root, 'extensions in capitals are supported as well: %s' % show(raw[0], 5))
            else:
                C.undec(key, root, 'extension')
            continue
        L = low.pop()
        C.decide(key + ':path', contains(L, lambda t: t is path), root, 'the extension of the configured file decides: %s' % show(L, 7), decidable=known(L, ('call', 'vfld')))
        X = {t for t in subterms(ret) if t.op == 'idx' and t.a[0].op == 'agg' and t.a[0].a[0] == 'array' and all(y.op == 'c' and y.a[0] == 'str' for y in t.a[0].a[4])}
        arrs = {t.a[0] for t in X}
        els = [y.a[1] for y in arrs.copy().pop().a[4]] if len(arrs) == 1 else sorted({y.a[1] for t in subterms(ret) if t.op == 'eq' and L in t.a for y in t.a if y.op == 'c' and y.a[0] == 'str'})
        base = TRUE
        for t in subterms(ret):
            if t.op == 'is' and t.a[0].op == 'call' and re.search(r'(extension|to_str)$', t.a[0].a[0]):
                base = AND(base, E.is_(t.a[0], OPTION, 'Some'))
            if t.op == 'more':
                base = AND(base, _atom(t))
        if not els or len(arrs) > 1:
            C.undec(key, root, 'supported extensions')
            continue
        okw = [t for t in subterms(ret) if t.op == 'call' and t.a[0] == FW]
        for ext in ['pbf', 'fmi', 'csv']:
            for el in els:
                pre = {L: S(ext)}
                for x in X:
                    pre[x] = S(el)
                r = rebuild(E, ret, pre=pre)
                r = rebuild(E, r, pre={t: t.a[1] for t in subterms(r) if t.op == 'any' and t.a[1] in (TRUE, FALSE)})
                r = restrict(r, base)
                vals = [v for c, v in leaves(r)]
                w = '%s:%s' % (key, ext)
                if ext in table and ext == el:
                    for v in vals:
                        ad = reader_of(E, v, keep)
                        if ad is None and any(t in subterms(v) or True for t in okw) and table[ext] == 'fmi' and 'writing' in root:
                            continue
                        C.decide(w, ad is not None and '::%s::' % table[ext] in ad, root, '%s-files are read by the reader of this format: %s' % (ext, ad or show(v, 4)), decidable=ad is not None or variant_of(v) == 'Err')
                    if 'writing' in root:
                        C.decide(w, any(variant_of(v) == 'Ok' for v in vals), root, '%s-files can be written' % ext)
                elif X and ext != el or not X and ext not in els:
                    for v in vals:
                        C.decide(w + ':other', variant_of(v) == 'Err', root, 'a file with another extension is refused: %s' % show(v, 4), decidable=reader_of(E, v, keep) is not None or variant_of(v) == 'Ok')
            if ext in table:
                C.decide('%s:%s:supported' % (key, ext), ext in els, root, '%s is supported: %s' % (ext, els))


def reader_of(E, v, keep):
    for t in subterms(v):
        if t.op == 'call' and t.a[0] == keep and t.a[2]:
            x = t.a[2][0]
            if x.op == 'agg' and x.a[0] == 'adt':
                return x.a[1]
    return None


CHECKS = {'P24': p24, 'P27': p27, 'P28': p28, 'P29': p29, 'P30': p30, 'P31': p31}
