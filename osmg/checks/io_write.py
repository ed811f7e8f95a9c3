"""Rules about everything the program writes (P01-P04)."""
from ..lib import *
from ..terms import _atom

W = 'osmgraphing::io::writing::'
CFG_GRAPH = 'osmgraphing::configs::writing::network::graph::Config'
CFG_EDGES = 'osmgraphing::configs::writing::network::edges::Config'
CFG_ROUTES = 'osmgraphing::configs::writing::routing::Config'
CFG_SMARTS = 'osmgraphing::configs::writing::smarts::Config'
GRAPH = 'osmgraphing::network::graph::Graph'

# every writer: (function, index of the writing-config argument, config type, field naming the output)
WRITERS = [
    (W + 'network::graph::Writer::write', 1, CFG_GRAPH, 'map_file'),
    (W + 'network::graph::fmi::Writer::write', 2, CFG_GRAPH, 'map_file'),
    (W + 'network::edges::Writer::write', 1, CFG_EDGES, 'file'),
    (W + 'network::edges::Writer::write_external_values', 2, CFG_EDGES, 'file'),
    (W + 'routing::Writer::write', 2, CFG_ROUTES, 'file'),
    (W + 'smarts::Writer::write', 2, CFG_SMARTS, 'file'),
]

DESTRUCTIVE = {
    'std::fs::File::create': 'truncates an existing file', 'std::fs::write': 'truncates an existing file',
    'std::fs::rename': 'replaces its destination', 'std::fs::remove_file': 'deletes a file', 'std::fs::remove_dir': 'deletes a directory',
    'std::fs::remove_dir_all': 'deletes a directory', 'std::fs::File::set_len': 'truncates a file', 'std::fs::hard_link': 'creates a link',
    'std::fs::File::options': None,
}


def p01(pid, tier):
    C = Check(pid, tier, 'every file opened for writing is opened with create_new (so an existing file makes the open fail) at exactly the configured path, no other file-destroying call exists in the library, and the executables copy files only below the results directory')
    P = C.P
    # 1. who-may-call: destructive file operations
    opens = set()
    for f, i, path, t in all_calls():
        if is_testfn(f):
            continue
        if path in DESTRUCTIVE and DESTRUCTIVE[path]:
            C.viol('destructive:%s@%s' % (path, f['path']), '%s:%s' % tuple(t['sp'][:2]), '%s %s' % (path, DESTRUCTIVE[path]))
        if path in ('std::fs::OpenOptions::open', 'std::fs::File::open'):
            opens.add((f['path'], f['crate']))
    # 2. the option set of every open
    want = {}
    for f, a, cfg, field in WRITERS:
        want[f] = (a, cfg, field)
    roots = [(f, None) for f in want] + sorted(opens)
    done = set()
    for path, crate in roots:
        if path in done:
            continue
        done.add(path)
        E = C.run(path, crate)
        if E is None:
            continue
        nwrite = 0
        for e in E.eff:
            if e.kind == 'call' and e.name == 'std::fs::OpenOptions::open':
                o, target = e.vals[0], e.vals[1]
                for c, q in leaves(o, e.pc):
                    key = 'open@%s' % e.fn
                    if q.op != 'oopt':
                        C.undec(key, e.loc(), 'options not understood: ' + show(q, 5))
                        continue
                    d = dict(q.a[0])
                    writes = [n for n in ('write', 'append', 'truncate', 'create', 'create_new') if n in d and d[n] is not FALSE]
                    if not writes:
                        C.ok(key + ':read', e.loc(), 'opened for reading only')
                        continue
                    nwrite += 1
                    cn = d.get('create_new')
                    if cn is TRUE:
                        C.ok(key + ':create_new', e.loc(), 'an existing file makes this open fail')
                    elif cn is None or cn is FALSE or known(cn):
                        C.viol(key + ':create_new', e.loc(), 'a file is opened for writing with options {%s}, so an existing file is modified instead of being refused' % ', '.join(sorted(writes)))
                    else:
                        C.undec(key + ':create_new', e.loc())
                    if path in want:
                        a, cfg, field = want[path]
                        if C.has_field(cfg, field):
                            C.compare('target@' + path, target, fld(mk('arg', a), cfg, field), e.loc(), what='path that is opened')
            elif e.kind == 'call' and e.name == 'std::fs::copy' and not is_testfn({'path': e.fn}):
                dst = e.vals[1]
                if contains(dst, lambda x: x.op == 'fld' and x.a[2] == 'results_dir'):
                    C.ok('copy@' + e.fn, e.loc(), 'the destination lies below the results directory')
                elif known(dst):
                    C.viol('copy@' + e.fn, e.loc(), 'copies over %s, which does not lie below the results directory' % show(dst, 6))
                else:
                    C.undec('copy@' + e.fn, e.loc(), show(dst, 5))
        if path in want:
            C.decide('writes:' + path, nwrite > 0, path, 'the writer opens its output exactly through the checked open', decidable=False)
    for f, i, path, t in all_calls():
        if path == 'std::fs::copy' and not is_testfn(f) and f['path'] not in done:
            done.add(f['path'])
            E = C.run(f['path'], f['crate'])
            if E is None:
                continue
            for e in E.eff:
                if e.kind == 'call' and e.name == 'std::fs::copy':
                    dst = e.vals[1]
                    if contains(dst, lambda x: x.op == 'fld' and x.a[2] == 'results_dir'):
                        C.ok('copy@' + e.fn, e.loc(), 'the destination lies below the results directory')
                    elif known(dst):
                        C.viol('copy@' + e.fn, e.loc(), 'copies over %s, which does not lie below the results directory' % show(dst, 6))
                    else:
                        C.undec('copy@' + e.fn, e.loc(), show(dst, 5))
    return C.finish(min_ok=12)


def p02(pid, tier):
    C = Check(pid, tier, 'in every writer each write, flush and open either succeeds or makes the writer return an error, and no buffered writer with unflushed content is dropped on a path that reports success')
    for path, a, cfg, field in WRITERS:
        E = C.run(path)
        if E is None:
            continue
        effs = [e for e in E.eff if e.kind in ('write', 'flush') and e.val is not None and not e.name.startswith('core::fmt')]
        effs += [e for e in E.eff if e.kind == 'call' and e.name == 'std::fs::OpenOptions::open']
        swallowed(C, E, effs, 'propagate[%s]' % path.split('io::writing::')[1])
        # buffered content
        n = 0
        for e in E.eff:
            if e.kind == 'drop' and 'BufWriter' in e.name:
                n += 1
                key = 'flushed@' + path
                val = e.args[1]
                bad = maybe = False
                for c, q in leaves(val, e.pc):
                    if c is FALSE:
                        continue
                    st = bufstate(E, q)
                    if 'dirty' in st:
                        r = ret_can(E, c, 'Ok')
                        if r == 'yes':
                            bad = True
                        elif r == 'maybe':
                            maybe = True
                    elif st - {'clean', 'new'}:
                        maybe = True
                if bad:
                    C.viol(key, e.loc(), 'a buffered writer is dropped with unflushed content on a path that returns Ok: an error while writing the rest (full disk, I/O error) is lost')
                elif maybe:
                    C.undec(key, e.loc(), show(val, 5))
                else:
                    C.ok(key, e.loc(), 'flushed (or the writer reports an error) before the buffer is dropped')
        C.decide('buffer:' + path, n > 0, path, 'the writer is buffered and its buffer analysed', decidable=False)
    return C.finish(min_ok=30)


def bufstate(E, q, seen=None):
    seen = set() if seen is None else seen
    if q.id in seen:
        return set()
    seen.add(q.id)
    if q.op == 'ite':
        return bufstate(E, q.a[1], seen) | bufstate(E, q.a[2], seen)
    if q.op in ('dirty', 'clean'):
        return {q.op}
    if q.op == 'bufw':
        return {'new'}
    if q.op == 'phi' and q in E.phi_ops:
        r = set()
        for x in E.phi_ops[q]:
            if x is not None:
                r |= bufstate(E, x, seen)
        return r
    if q is UNDEF:
        return set()
    return {'unknown'}



PE = 'osmgraphing::configs::parsing::edges::'
PN = 'osmgraphing::configs::parsing::nodes::'


def g_(name, a=0):
    return fld(mk('arg', a), GRAPH, name)


def nidx(t):
    return mk('fld', t, ANY, '0')


class Rows:
    """a table of rows written inside loops: which text is written for which category of column"""

    def __init__(self, C, E, path):
        self.C, self.E, self.path = C, E, path
        self.writes = [e for e in E.eff if e.kind == 'write' and not e.name.startswith('core::fmt')]

    def dependent(self, subj, conds):
        """writes that depend on the tested value: feasible under some of the conditions only, or of different text"""
        out = []
        for e in self.writes:
            f = [AND(e.pc, c) is not FALSE for c in conds]
            if any(f) and (not all(f) or contains(e.vals[1], lambda x: x is subj)):
                if e not in out:
                    out.append(e)
        return out

    def column(self, key, A, want, deps, what, row=None):
        """under condition A each dependent write emits one of `want` = [(extra condition fn(env) or None, [patterns])]"""
        C = self.C
        n = 0
        env0 = None
        if row is not None:
            want = [rewrite_var(w, 'N', row) for w in want]
        for e in deps:
            pc = AND(e.pc, A)
            if pc is FALSE:
                continue
            for c, ps in texts(e.vals[1], pc):
                b = body_parts(ps)
                if not b or within(c) is FALSE:
                    continue
                n += 1
                hit = None
                for pat in want:
                    if isinstance(pat, str):
                        if len(b) == 1 and b[0] == ('lit', pat):
                            hit = {}
                    elif len(b) == 1 and b[0][0] == 'val' and b[0][1] in ('display', 'str') and not b[0][3]:
                        hit = match(pat, b[0][2], {})
                    if hit is not None:
                        break
                if hit is not None:
                    C.ok(key, e.loc(), '%s is written as %s' % (what, show_parts(b)))
                    if 'E' in hit or 'N' in hit:
                        env0 = hit
                elif all(p[0] == 'lit' or known(p[2]) for p in b) and all(isinstance(p, str) or C.known_adt_fields(p) for p in want):
                    C.viol(key, e.loc(), 'the %s-column is written as %s' % (what, show_parts(b)))
                else:
                    C.undec(key, e.loc(), show_parts(b)[:300])
        if n == 0:
            C.undec(key, self.path, 'no text found for %s' % what)
        return env0


def p03(pid, tier):
    C = Check(pid, tier, 'for each kind of edge column the text written for it is the datum of that kind of the very edge of the row (value-flow from the graph arrays to the write call, per category variant); rows are the edges of the graph, minus shortcuts iff these are not wanted; ids unknown to the graph are errors')
    root = W + 'network::edges::Writer::write'
    E = C.run(root)
    if E is None:
        return C.finish(min_ok=12)
    edge_rows(C, E, root, mk('arg', 1))
    # ids print as plain numbers
    for ty in ('NodeIdx', 'EdgeIdx'):
        f = '<osmgraphing::network::graph::indexing::%s as core::fmt::Display>::fmt' % ty
        plain_display(C, f)
    return C.finish(min_ok=25)



def edge_rows(C, E, root, ecfg):
    R = Rows(C, E, root)
    mi = subjects([e.pc for e in R.writes] + [e.vals[1] for e in R.writes], PE + 'MetaInfo')
    e_ = V('E')
    src, dst = idx(g_('bwd_dsts'), e_), idx(g_('fwd_dsts'), e_)
    sc = idx(g_('sc_edges'), idx(g_('sc_offsets'), e_))
    coord = lambda n, f: mk('fld', idx(g_('node_coords'), nidx(n)), ANY, f)
    spec = {
        'EdgeId': [sm(idx(g_('edge_ids'), e_))],
        'SrcId': [idx(g_('node_ids'), nidx(src))], 'SrcIdx': [src, nidx(src)],
        'SrcLat': [coord(src, 'lat')], 'SrcLon': [coord(src, 'lon')],
        'DstId': [idx(g_('node_ids'), nidx(dst))], 'DstIdx': [dst, nidx(dst)],
        'DstLat': [coord(dst, 'lat')], 'DstLon': [coord(dst, 'lon')],
        'ShortcutIdx0': [idx(sc, I(0)), nidx(idx(sc, I(0))), '-1'], 'ShortcutIdx1': [idx(sc, I(1)), nidx(idx(sc, I(1))), '-1'],
    }
    variants = [v['name'] for v in C.P.variants(PE + 'MetaInfo')]
    edge = None
    if not mi:
        C.undec('meta-dispatch', root, 'no dispatch over the kind of column found')
    for x in mi:
        conds = [E.is_(x, PE + 'MetaInfo', v) for v in variants]
        deps = R.dependent(x, conds)
        for v, A in zip(variants, conds):
            if v not in spec:
                C.undec('column:' + v, root, 'column kind without specification')
                continue
            env = R.column('column:' + v, A, spec[v], deps, v)
            if env:
                edge = env['E']
        # a shortcut's columns: its two edges iff the edge is a shortcut, -1 iff not
        if edge is not None:
            sub = lambda t: rewrite_var(t, 'E', edge)
            isc = NOT(izero(isub(idx(g_('sc_offsets'), iadd(edge, I(1))), idx(g_('sc_offsets'), edge))))
            for v in ('ShortcutIdx0', 'ShortcutIdx1'):
                for yes, A in ((True, isc), (False, NOT(isc))):
                    k = 'column:%s:%s' % (v, 'shortcut' if yes else 'plain')
                    want = spec[v][:2] if yes else ['-1']
                    R.column(k, AND(A, E.is_(x, PE + 'MetaInfo', v)), want, deps, v)
    # metrics
    cats = free_subjects([e.pc for e in R.writes] + [e.vals[1] for e in R.writes], PE + 'Category')
    for x in cats:
        names = [v['name'] for v in C.P.variants(PE + 'Category')]
        conds = [E.is_(x, PE + 'Category', v) for v in names]
        deps = R.dependent(x, conds)
        M = E.is_(x, PE + 'Category', 'Metric')
        pos = V('pos')
        val = idx(idx(g_('metrics'), e_), pos)
        mean = idx(sm(g_('means')), pos)
        has = [t for e in deps for t in subterms(e.vals[1]) if t.op == 'is' and t.a[1] == OPTION and t.a[0].op == 'fld' and t.a[0].a[2] == 'means']
        den = fld(ecfg, CFG_EDGES, 'is_denormalizing')
        hm = E.is_(g_('means'), OPTION, 'Some')
        for nm, A, want in (('denormalized', AND(den, hm), [mk('bin', 'Mul', mean, val), mk('bin', 'Mul', val, mean)]), ('raw', AND(NOT(den)), [val]), ('no-means', AND(den, NOT(hm)), [val])):
            for e in deps:
                pc = AND(e.pc, M, A)
                if pc is FALSE:
                    continue
                for c, ps in texts(e.vals[1], pc):
                    b = body_parts(ps)
                    if not b:
                        continue
                    key = 'column:Metric:' + nm
                    if len(b) == 1 and b[0][0] == 'val' and b[0][1] in ('display', 'str') and not b[0][3] and any(match(w, b[0][2]) is not None for w in want):
                        C.ok(key, e.loc(), 'metric column is ' + show_parts(b))
                        en = next(m for m in (match(w, b[0][2]) for w in want) if m is not None)
                        p = en['pos']
                        # position of this category's id among the graph's metric ids
                        ids = mk('fld', mk('fld', mk('fld', g_('cfg'), ANY, 'edges'), ANY, 'metrics'), ANY, 'ids')
                        if p.op == 'first':
                            r = p.a[0]
                            mi = mk('vfld', x, 'Metric', 'id')
                            C.decide('metric-index', any(match(mk('eq', *q), p.a[1]) is not None for q in ((mi, mk('idx', ids, r)), (mk('idx', ids, r), mi))), e.loc(), 'index of the metric column: ' + show(p, 8), decidable=known(p))
                        elif p.op == 'rng' and any(t.op == 'eq' and mk('vfld', x, 'Metric', 'id') in t.a and any(y.op == 'idx' and y.a[1] is p and match(ids, y.a[0]) is not None for y in t.a) and implies(pc, cond(t)) for t in atoms_of(pc)):
                            C.ok('metric-index', e.loc(), 'the position at which the id is found')
                        else:
                            C.undec('metric-index', e.loc(), show(p, 6))
                    elif all(p[0] == 'lit' or (known(p[2]) and p[1] in ('display', 'str')) for p in b) and C.known_adt_fields(val):
                        C.viol(key, e.loc(), 'a metric column (%s) is written as %s' % (nm, show_parts(b)))
                    else:
                        C.undec(key, e.loc(), show_parts(b)[:200])
    # the id of the column decides the category; unknown ids are errors; ignored columns are `_`
    idsf = fld(ecfg, CFG_EDGES, 'ids')
    cols = column_loops(R, idsf)
    okc = ok_assumption(E)
    seen = False
    for col in cols:
        some = E.is_(col, OPTION, 'Some')
        for e in R.writes:
            if not (e.loops and len(e.loops) >= 2 and col.a[1].op == 'rng' and implies(e.pc, mk_more(col.a[1]))):
                continue
            pc = AND(e.pc, NOT(some))
            for c, ps in (texts(e.vals[1], pc) if pc is not FALSE else []):
                b = body_parts(ps)
                if b:
                    C.decide('column:ignored', b == [('lit', '_')], e.loc(), 'an ignored column is written as %s' % show_parts(b), decidable=all(p[0] == 'lit' or known(p[2]) for p in b))
        for x in cats:
            for vname in ('Meta', 'Metric'):
                A = E.is_(x, PE + 'Category', vname)
                same = E.eqvals(E.final, mk('vfld', x, vname, 'id'), mk('vfld', col, 'Some', '0'))
                conds = [E.is_(x, PE + 'Category', v['name']) for v in C.P.variants(PE + 'Category')]
                for e in R.dependent(x, conds):
                    if AND(e.pc, A) is FALSE or not contains(e.pc, lambda t: t is col) or not [1 for c, ps in texts(e.vals[1], AND(e.pc, A)) if body_parts(ps)]:
                        continue
                    seen = True
                    g = AND(e.pc, A, NOT(same), picked(E, x, e.pc)) is FALSE
                    C.decide('column-by-id:' + vname, g, e.loc(), 'a column is written only by the category of the same id', decidable=AND(e.pc, A, same) is FALSE or not any(t.op == 'eq' and contains(t, lambda y: y is x) for t in subterms(AND(e.pc, picked(E, x, e.pc)))))
    un = [(c, x) for c, x in ret_under(E, okc) if variant_of(x) == 'Err']
    un = [(c, x) for c, x in un if contains(c, lambda t: t.op == 'more') or contains(x, lambda t: t.op == 'vfld' and t.a[0] in cols)]
    rets = ret_under(E, okc)
    C.decide('unknown-id-is-error', bool(un), root, 'a column id that no category of the graph has makes the writer fail', decidable=all(variant_of(x) in ('Ok', 'Err') for c, x in rets) and bool(cols))
    unmatched(C, E, root, 'unknown-id-is-error:always', cols, cats)
    for col in cols:
        if col.a[1].op == 'rng':
            C.compare('columns:all', col.a[1].a[2], mk('len', idsf), root, what='number of columns')
            separators(C, 'separator', R.writes, col.a[1], root)
    # rows: shortcuts are skipped iff they are not wanted
    if edge is not None:
        ws = fld(ecfg, CFG_EDGES, 'is_writing_shortcuts')
        cnt = edge.a[2] if edge.op == 'rng' else None
        if cnt is not None:
            C.compare('rows:all-edges', cnt, mk('len', V('arr')), root, what='number of rows')
            if cnt.op == 'len' and cnt.a[0].op == 'fld':
                C.decide('rows:edge-array', cnt.a[0].a[2] in ('fwd_dsts', 'bwd_dsts', 'fwd_to_fwd_map', 'bwd_to_fwd_map', 'edge_ids', 'metrics'), root, 'rows run over ' + show(cnt, 4), decidable=known(cnt))
        for e in R.writes:
            if not contains(e.pc, lambda t: t.op == 'more' and t.a[0] is edge):
                continue
            C.decide('rows:skip', AND(e.pc, isc, NOT(ws)) is FALSE, e.loc(), 'nothing is written for a shortcut if shortcuts are not wanted', decidable=sc_known(e.pc, edge))
            break
        nl = [e for e in R.writes if e.vals[1] is S('\n') and contains(e.pc, lambda t: t.op == 'more' and t.a[0] is edge)]
        for e in nl:
            base = AND(okc, mk_more(edge))
            C.decide('rows:kept-shortcut', AND(e.pc, base, isc, ws) is not FALSE, e.loc(), 'a shortcut is written if shortcuts are wanted', decidable=sc_known(e.pc, edge))
            C.decide('rows:kept-plain', AND(e.pc, base, NOT(isc), NOT(ws)) is not FALSE and AND(e.pc, base, NOT(isc), ws) is not FALSE, e.loc(), 'a plain edge is always written', decidable=sc_known(e.pc, edge))
            C.decide('rows:skip', AND(e.pc, isc, NOT(ws)) is FALSE, e.loc(), 'a shortcut is skipped if shortcuts are not wanted', decidable=sc_known(e.pc, edge))
        if not nl:
            C.undec('rows:newline', root)
    return edge


def unmatched(C, E, root, key, cols, cats):
    """a column with an id that no category has never lets its loop go on: the search over the categories either found
    the column's category or the writer fails"""
    for col in cols:
        r = col.a[1]
        pc = [v for k, v in E.back_pc.items() if k[0:2] == tuple(loopkey(r))[0:2]] if r.op == 'rng' else []
        cr = [x.a[1] for x in cats if x.op == 'idx' and x.a[1].op == 'rng']
        if not pc or not cr:
            C.undec(key, root, 'no search over the categories')
            continue
        c = AND(OR(*pc) if len(pc) > 1 else pc[0], mk_more(r), E.is_(col, OPTION, 'Some'), *[NOT(mk_more(x)) for x in cr])
        extra = [t for t in atoms_of(c)]
        C.decide(key, c is FALSE, root, 'if no category has the id of a column, the writer does not carry on' + ('' if c is FALSE else '; it does under ' + show(restrict(c, ok_assumption(E)), 6)[:200]),
                 decidable=all(known(t) or t.op == 'is' for t in extra))


def column_loops(R, ids):
    """the configured columns as iterated by the loop in which they are written"""
    out = []
    for e in R.writes:
        if len(e.loops) < 2:
            continue
        for t in subterms(e.pc):
            if t.op == 'is' and t.a[1] == OPTION and t.a[0].op == 'idx' and t.a[0].a[0] is ids and t.a[0] not in out and t.a[0].a[1].op == 'rng' and implies_more(e.pc, t.a[0].a[1]):
                out.append(t.a[0])
    return out


def sc_known(pc, edge):
    """is every test about shortcuts in the condition the plain comparison of two consecutive shortcut offsets?"""
    ref = isub(idx(g_('sc_offsets'), iadd(edge, I(1))), idx(g_('sc_offsets'), edge))
    good = set(atoms_of(izero(ref)))
    for a in atoms_of(pc):
        if a not in good and a.op != 'is' and contains(a, lambda t: t.op == 'fld' and t.a[2] in ('sc_offsets', 'sc_edges')) and not contains(a, lambda t: t.op == 'call'):
            return False
    return True


def mk_more(r):
    return _atom(mk('more', r))


def rewrite_var(t, n, by):
    return rewrite(t, lambda x: by if x.op == 'pvar' and x.a[0] == n else x)


def plain_display(C, f):
    if C.P.find(f) is None:
        C.undec('display:' + f, f, 'no such implementation')
        return
    E = C.run(f)
    if E is None:
        return
    ws = [e for e in E.eff if e.kind == 'write']
    for e in ws:
        for c, ps in texts(e.vals[1], e.pc):
            C.decide('display:' + f, len(ps) == 1 and ps[0][0] == 'val' and ps[0][1] == 'display' and match(nidx(mk('arg', 0)), ps[0][2]) is not None, e.loc(), 'displayed as ' + show_parts(ps), decidable=all(p[0] == 'lit' or known(p[2]) for p in ps))


def p04(pid, tier):
    C = Check(pid, tier, 'the three header numbers of a written graph are exactly the number of metric columns, of nodes and of edge rows that follow; per kind of node column the text is the datum of that kind of the row\'s node; the edge rows obey the same rule as the edge writer')
    root = W + 'network::graph::Writer::write'
    E = C.run(root)
    if E is None:
        return C.finish(min_ok=12)
    R = Rows(C, E, root)
    ecfg = fld(mk('arg', 1), CFG_GRAPH, 'edges')
    NCFG = 'osmgraphing::configs::writing::network::graph::nodes::Config'
    nids = fld(fld(mk('arg', 1), CFG_GRAPH, 'nodes'), NCFG, 'ids')
    eids = fld(ecfg, CFG_EDGES, 'ids')
    ws = fld(ecfg, CFG_EDGES, 'is_writing_shortcuts')
    edge = edge_rows(C, E, root, ecfg)
    # header numbers, in order
    nums = []
    for e in R.writes:
        if e.loops:
            continue
        for c, ps in texts(e.vals[1], e.pc):
            b = body_parts(ps)
            if not b or (b[0][0] == 'lit' and b[0][1].startswith('#')):
                continue
            nums.append((e, b))
    if len(nums) != 3:
        C.undec('header', root, '%d header values' % len(nums))
    else:
        for (e, b), what in zip(nums, ('metric-count', 'node-count', 'edge-count')):
            key = 'header:' + what
            if len(b) != 1 or b[0][0] != 'val' or b[0][1] != 'display':
                C.decide(key, False, e.loc(), 'written as ' + show_parts(b), decidable=all(p[0] == 'lit' or known(p[2]) for p in b))
                continue
            t = b[0][2]
            if what == 'node-count':
                arrs = [mk('len', g_(n)) for n in ('node_ids', 'node_coords', 'node_ch_levels')]
                C.decide(key, t in arrs, e.loc(), 'node count is ' + show(t, 6), decidable=known(t) and C.has_field(GRAPH, 'node_ids', 'node_coords'))
            elif what == 'metric-count':
                j = V('j')
                el = idx(eids, j)
                ids = mk('fld', mk('fld', mk('fld', g_('cfg'), ANY, 'edges'), ANY, 'metrics'), ANY, 'ids')
                good = False
                if t.op == 'countif':
                    j = t.a[0]
                    el = idx(eids, j)
                    some = E.is_(el, OPTION, 'Some')
                    at = [x for x in atoms_of(t.a[1])]
                    con = [x for x in at if x.op == 'call' and x.a[0].endswith('::contains') and match((ids, mk('vfld', el, 'Some', '0')), tuple(x.a[2])) is not None]
                    good = j.op == 'rng' and bool(con) and t.a[1] is AND(some, _atom(con[0]))
                C.decide(key, good, e.loc(), 'number of metric columns is ' + show(t, 8), decidable=known(t))
            else:
                good = False
                if t.op == 'countif':
                    r = t.a[0]
                    # the row's edge is r itself or the r-th element of the plain index range
                    for x in [r] + [y for y in subterms(t.a[1]) if y.op == 'fld' and y.a[2] == '0' and contains(y, lambda q: q is r)]:
                        isc = NOT(izero(isub(idx(g_('sc_offsets'), iadd(x, I(1))), idx(g_('sc_offsets'), x))))
                        if t.a[1] is OR(NOT(isc), ws) and r.op == 'rng':
                            good = True
                C.decide(key, good, e.loc(), 'edge count is ' + show(t, 9), decidable=known(t) and t.op in ('countif', 'len', 'lin', 'c'))
    # node columns
    i = V('N')
    node = None
    for adt, spec in ((PN + 'MetaInfo', {'NodeId': [idx(g_('node_ids'), i)], 'NodeIdx': [mk('agg', 'adt', ANY, ANY, ANY, (i,)), i], 'CHLevel': [idx(g_('node_ch_levels'), i)]}),
                      (PN + 'metrics::UnitInfo', {'Latitude': [mk('fld', idx(g_('node_coords'), i), ANY, 'lat')], 'Longitude': [mk('fld', idx(g_('node_coords'), i), ANY, 'lon')]})):
        subj = subjects([e.pc for e in R.writes] + [e.vals[1] for e in R.writes], adt)
        if not subj:
            C.undec('dispatch:' + adt, root, 'no dispatch over the kind of column')
            continue
        names = [v['name'] for v in C.P.variants(adt)]
        for x in subj:
            conds = [E.is_(x, adt, v) for v in names]
            deps = R.dependent(x, conds)
            # the node of the row is the one whose id is written; every other column speaks of the same node
            for v, A in sorted(zip(names, conds), key=lambda q: q[0] != 'NodeId'):
                if v in spec:
                    w = spec[v]
                    if v == 'NodeIdx' and node is not None:
                        # the plain index, or the index type around it
                        w = [node, mk('agg', 'adt', ANY, ANY, ANY, (node,))] + ([node.a[0]] if node.op == 'fld' and node.a[2] == '0' else [])
                    env = R.column('node-column:' + v, A, w, deps, v, row=node)
                    if env and node is None and 'N' in env:
                        node = env['N']
                        if node.op == 'agg':
                            node = None
    if node is not None:
        at = [t for t in subterms(node) if t.op == 'rng']
        for r in at[:1]:
            src = node.a[0].a[0] if node.op == 'fld' and node.a[0].op == 'idx' else None
            whole = None
            if node is r:
                whole = r.a[2]
            elif src is not None and node.a[0].a[1] is r:
                rg = [t for t in subterms(src) if t.op == 'agg' and 'Range' in str(t.a[1:3])]
                if len(rg) == 1:
                    whole = rg[0].a[-1][1] if isinstance(rg[0].a[-1], tuple) and len(rg[0].a[-1]) == 2 else None
                    lo = rg[0].a[-1][0] if whole is not None else None
                    if lo is not None:
                        C.decide('node-rows:from-first', lo is I(0), root, 'the rows start with node %s' % show(lo, 4), decidable=known(lo))
            if whole is not None:
                arrs = [mk('len', g_(n)) for n in ('node_ids', 'node_coords', 'node_ch_levels')]
                C.decide('node-rows:all', whole in arrs, root, 'number of node rows is ' + show(whole, 4), decidable=known(whole) and C.has_field(GRAPH, 'node_ids', 'node_coords'))
            okn = ok_assumption(E)
            for e in R.writes:
                if e.vals[1] is S('\n') and implies_more(e.pc, r):
                    extra = [t for t in atoms_of(restrict(e.pc, AND(okn, mk_more(r)))) if contains(t, lambda y: y is r) and not (t.op == 'more' and t.a[0] is r)]
                    cut = [t for t in extra if known(t) and (AND(e.pc, okn, _atom(t)) is FALSE or AND(e.pc, okn, NOT(_atom(t))) is FALSE)]
                    C.decide('node-rows:none-skipped', not extra, e.loc(), 'a node row is written only if ' + ', '.join(show(t, 6) for t in cut or extra), decidable=bool(cut))
    C_ = C.P.variants(PN + 'Category')
    cats = free_subjects([e.pc for e in R.writes], PN + 'Category')
    cols = column_loops(R, nids)
    for col in cols:
        some = E.is_(col, OPTION, 'Some')
        for e in R.writes:
            if not (col.a[1].op == 'rng' and implies_more(e.pc, col.a[1])):
                continue
            pc = AND(e.pc, NOT(some))
            for c, ps in (texts(e.vals[1], pc) if pc is not FALSE else []):
                b = body_parts(ps)
                if b:
                    C.decide('node-column:ignored', b == [('lit', '_')], e.loc(), 'an ignored column is written as ' + show_parts(b), decidable=all(p[0] == 'lit' or known(p[2]) for p in b))
            for x in cats:
                for vn in ('Meta', 'Metric'):
                    A = E.is_(x, PN + 'Category', vn)
                    p2 = AND(e.pc, A)
                    if p2 is FALSE or not [1 for c, ps in texts(e.vals[1], AND(p2, some)) if body_parts(ps)] or not implies(e.pc, E.is_(x, PN + 'Category', vn)):
                        continue
                    same = E.eqvals(E.final, mk('vfld', x, vn, 'id'), mk('vfld', col, 'Some', '0'))
                    C.decide('node-column-by-id:' + vn, AND(p2, some, NOT(same), picked(E, x, e.pc)) is FALSE, e.loc(), 'a node column is written only by the category of the same id', decidable=AND(e.pc, A, same) is FALSE or not any(t.op == 'eq' and contains(t, lambda y: y is x) for t in subterms(AND(e.pc, picked(E, x, e.pc)))))
        if col.a[1].op == 'rng':
            C.compare('node-columns:all', col.a[1].a[2], mk('len', nids), root, what='number of columns')
            separators(C, 'node-separator', R.writes, col.a[1], root)
    if not cols:
        C.undec('node-columns', root, 'no column loop')
    unmatched(C, E, root, 'node-columns:unknown-id', cols, cats)
    # the edge part is configured by the graph-config's own edge part
    for f in ('<%s as core::convert::From<%s>>::from' % (CFG_EDGES, CFG_GRAPH),):
        if C.P.find(f):
            E2 = C.run(f)
            if E2 is not None:
                for name in ('is_writing_shortcuts', 'is_denormalizing', 'ids'):
                    if C.has_field(CFG_EDGES, name):
                        C.compare('config:' + name, field_of(E2, E2.ret, CFG_EDGES, name), fld(fld(mk('arg', 0), CFG_GRAPH, 'edges'), CFG_EDGES, name), f, what=name)
    return C.finish(min_ok=20)


def field_of(E, v, adt, name):
    """value of a field of a (possibly conditional) record value"""
    if v.op == 'ite':
        return ITE(v.a[0], field_of(E, v.a[1], adt, name), field_of(E, v.a[2], adt, name))
    return E.proj(v, ('f', name, adt))


CHECKS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04}
