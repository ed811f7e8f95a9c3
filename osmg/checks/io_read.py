"""Rules about reading maps (P05, P06) and about the outcome of the executables (P07)."""
from ..lib import *
from ..terms import _atom

R_ = 'osmgraphing::io::parsing::network::graph::'
PE = 'osmgraphing::configs::parsing::edges::'
PN = 'osmgraphing::configs::parsing::nodes::'


INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize')
FLOATS = ('f32', 'f64')


def more(r):
    return _atom(mk('more', r))


def lt(a, b):
    return ineg(isub(a, b))


def kinds_of(E, P, x, cat, subs):
    """condition per kind of column: Meta variants, Metric (units), Ignored"""
    out = {}
    for v in P.variants(cat):
        A = E.is_(x, cat, v['name'])
        sub = subs.get(v['name'])
        if sub:
            field, adt = sub
            for w in P.variants(adt):
                out[w['name']] = AND(A, E.is_(mk('vfld', x, v['name'], field), adt, w['name']))
        else:
            out[v['name']] = A
    return out


def only_err(C, E, key, care, where, what):
    """under this condition the function must return an error"""
    if care is FALSE:
        C.ok(key, where, what + ' (impossible)')
        return
    lv = [(c, x) for c, x in ret_under(E, care) if x is not UNDEF]
    vs = {variant_of(x) for c, x in lv}
    panics = [p for p in E.eff if p.kind in ('panic', 'exit') and AND(p.pc, care) is not FALSE]
    if vs == {'Err'}:
        C.ok(key, where, what + ' makes the function fail')
    elif 'Ok' in vs:
        wide = any('widened' in n for n in E.notes)
        C.decide(key, False, where, '%s does not make the function fail' % what, decidable=not wide)
    elif not vs and panics:
        C.ok(key, where, what + ' aborts')
    else:
        C.undec(key, where, '%s: %s' % (what, vs))


class Columns:
    """rows of text are turned into records by a loop over configured columns; which column feeds which part of the record"""

    def __init__(self, C, E, root, cat, subs):
        self.C, self.E, self.root = C, E, root
        terms = [n for i, n in E.phi_ops.values() if n is not None] + [c for c, x in leaves(E.ret)]
        self.x = None
        for x in subjects(terms, cat):
            if x.op == 'idx' and x.a[1].op == 'rng':
                self.x, self.j = x, x.a[1]
        if self.x is None:
            C.undec('columns@' + root, root, 'no loop over the configured columns')
            return
        self.kinds = kinds_of(E, C.P, self.x, cat, subs)
        # the texts of the row
        self.text = None
        for e in E.eff:
            if e.kind == 'call' and e.name.endswith('::parse'):
                for t in subterms(e.vals[0]):
                    if t.op == 'idx' and t.a[0].op == 'call' and 'split' in t.a[0].a[0]:
                        self.text = t.a[0]
        if self.text is not None:
            nonempty = any(a.op in ('zero', 'call') and contains(a, lambda t: t.op == 'idx' and t.a[0] is self.text) and a.op == 'zero' for i, n in E.phi_ops.values() if n is not None for a in atoms_of(n))
            C.decide('split@' + root, nonempty or self.text.a[0].endswith(('::split_whitespace', '::split_ascii_whitespace')), root, 'a row is cut into its columns by %s' % self.text.a[0].split('::')[-1],
                     decidable=self.text.a[0].endswith(('::split', '::splitn', '::split_terminator', '::split_inclusive', '::rsplit', '::rsplitn')))
        if self.text is None:
            C.undec('text@' + root, root, 'the texts of a row are not understood')
            self.x = None

    def feeds(self, name, value, kind, ty, prefix=None, none=None):
        """`value` of the record comes from the column of `kind`, and only from it"""
        C, E = self.C, self.E
        ps = [t for t in subterms(value) if t.op == 'phi' and E.phi_ops.get(t, (None, None))[1] is not None]
        if len(ps) > 1:
            # alternatives: each of them has to come from the column
            while value.op == 'agg' and len(value.a[4]) == 1:
                value = value.a[4][0]
            for c, v in leaves(value, TRUE):
                while v.op == 'agg' and len(v.a[4]) == 1:
                    v = v.a[4][0]
                q = v.a[0] if v.op == 'vfld' and v.a[1] == 'Some' else v
                if q in ps:
                    own = okp(mk('call', 'parse', (ty,), (idx(self.text, self.j),), None))
                    back = E.back_pc.get((q.a[0], q.a[1]), TRUE)
                    src = {k for k, A in self.kinds.items() for c2, w in leaves(E.phi_ops[q][1], AND(more(self.j), A, back)) if contains(w, lambda t: t is own)}
                    if src and kind not in src:
                        C.viol('feeds:%s:%s' % (name, '+'.join(sorted(src))), self.root, '%s can be the number of a %s column' % (name, ', '.join(sorted(src))))
        if len(ps) != 1:
            C.undec('feeds:' + name, self.root, '%d loop-carried values in %s' % (len(ps), show(value, 5)))
            return
        p = ps[0]
        nx = E.phi_ops[p][1]
        own = okp(mk('call', 'parse', (ty,), (idx(self.text, self.j),), None))
        parses = []
        for k, A in self.kinds.items():
            care = AND(more(self.j), A, E.back_pc.get((p.a[0], p.a[1]), TRUE))
            got = set()
            for c, v in leaves(nx, care):
                if v is p:
                    got.add('same')
                    if k == kind:
                        key = 'feeds:%s:%s' % (name, k)
                        lit = none is not None and contains(c, lambda t: t.op in ('eq', 'call') and contains(t, lambda q: q is S(none)))
                        if none is None or not lit:
                            C.decide(key, False, self.root, 'a %s column can be dropped without an error' % k, decidable=c is not FALSE and all(a.op != 'phi' for a in atoms_of(c)) and (none is None or AND(c, E.is_(own.a[0], RESULT, 'Ok')) is FALSE))
                    continue
                w = v
                if w.op == 'agg' and w.a[2] == 'Some':
                    w = w.a[4][0]
                elif w.op == 'push' and w.a[0] is p:
                    w = w.a[1]
                if w is own:
                    kind_ok = True
                    parses.append(w.a[0])
                elif prefix and w.op == 'vfld' and w.a[0].op == 'call' and w.a[0].a[0] == 'parse' and w.a[0].a[1] == (ty,) and contains(w, lambda t: t is idx(self.text, self.j)):
                    kind_ok = True
                    parses.append(w.a[0])
                    tested = any(contains(a, lambda t: t is S(prefix)) for a in list(atoms_of(AND(care, c))) + [w])
                    C.decide('prefix:' + name, tested, self.root, 'the prefix is removed only where it is "%s"' % prefix)
                    for t in subterms(w):
                        if t.op == 'subfrom' and t.a[0] is idx(self.text, self.j):
                            C.decide('prefix-length:' + name, t.a[1] is I(len(prefix)), self.root, '%s characters are removed' % show(t.a[1], 3), decidable=known(t.a[1]))
                else:
                    kind_ok = False
                # a number read as another type
                same = {'usize': ('usize', 'u64'), 'i64': ('i64', 'isize')}.get(ty, (ty,))
                other = [t for t in subterms(w) if t.op == 'call' and t.a[0] == 'parse' and t.a[1] and t.a[1][0] not in same and t.a[1][0] in INTS + FLOATS and t.a[2][0] is idx(self.text, self.j)]
                key = 'feeds:%s:%s' % (name, k)
                if k == kind and not kind_ok and other:
                    C.viol(key, self.root, '%s is read as %s, not as %s' % (name, other[0].a[1][0], ty))
                elif k == kind and kind_ok:
                    C.ok(key, self.root, '%s is the number in the %s column' % (name, k))
                elif k == kind:
                    C.decide(key, False, self.root, 'from a %s column, %s becomes %s' % (k, name, show(v, 7)), decidable=known(v))
                else:
                    C.decide(key, False, self.root, 'a %s column changes %s to %s' % (k, name, show(v, 7)), decidable=known(v) or kind_ok)
            if care is FALSE and k == kind:
                C.viol('feeds:%s:%s' % (name, k), self.root, 'a %s column is never accepted' % k)
            elif care is FALSE or (k != kind and got == {'same'}):
                C.ok('feeds:%s:%s' % (name, k), self.root, 'a %s column does not touch %s' % (k, name))
        # unreadable text
        if parses:
            bad = AND(more(self.j), self.kinds[kind], lt(self.j, mk('len', self.text)), *[NOT(E.is_(q, RESULT, 'Ok')) for q in parses])
            if none is not None:
                # any text but the literal for 'no shortcut'
                pass
            only_err(C, E, 'unreadable:' + kind, bad, self.root, 'an unreadable %s' % kind) if none is None else None

    def unsupported(self, ks):
        for k in ks:
            if k in self.kinds:
                only_err(self.C, self.E, 'unsupported:' + k, AND(more(self.j), self.kinds[k], lt(self.j, mk('len', self.text))), self.root, 'an unsupported column kind %s' % k)

    def missing(self):
        only_err(self.C, self.E, 'missing-column', AND(more(self.j), NOT(lt(self.j, mk('len', self.text)))), self.root, 'a row with too few columns')

    def required(self, name, value):
        """the record cannot be built without this part"""
        ps = [t for t in subterms(value) if t.op == 'phi']
        if len(ps) == 1:
            only_err(self.C, self.E, 'required:' + name, AND(NOT(more(self.j)), NOT(self.E.is_(ps[0], OPTION, 'Some'))), self.root, 'a row without ' + name)


def record(E, adts):
    """{field: term} of the (nested) record in the Ok result"""
    out = {}
    for c, x in leaves(E.ret):
        if variant_of(x) == 'Ok':
            todo = [x.a[4][0]]
            while todo:
                r = todo.pop()
                if r.op == 'agg' and r.a[0] == 'adt':
                    for n, v in zip(r.a[3], r.a[4]):
                        if v.op == 'agg' and v.a[0] == 'adt' and v.a[1] not in (OPTION,):
                            todo.append(v)
                        else:
                            out.setdefault(n, v)
    return out


def nopanic(C, E, root, key):
    for e in E.eff:
        if e.kind in ('panic', 'assert') and e.pc is not FALSE and not is_testfn({'path': e.fn}):
            yield e


def functional(C):
    f = 'osmgraphing::helpers::is_line_functional'
    E = C.run(f)
    if E is None:
        return
    v = cond(E.ret)
    ln = mk('len', mk('arg', 0))
    line = mk('arg', 0)
    for key, text, n, first, has in (('empty', 'an empty line is skipped', 0, None, False), ('comment', 'a line starting with # is skipped', 9, '#', True), ('comment', 'a line of a single # is skipped', 1, '#', True),
                                     ('other', 'a line of a single digit counts', 1, '5', False), ('other', 'a line of two digits counts', 2, '5', False), ('other', 'every other line counts', 9, '5', False), ('other', 'a line with a # after other text counts', 9, '5', True)):
        def val(t):
            if t.op == 'call' and t.a[2] and t.a[2][0] is line and len(t.a[2]) == 2:
                p = t.a[2][1]
                if cint(p) == 35 or p.op == 'c' and p.a[1] == '#':
                    if t.a[0].endswith('starts_with'):
                        return B(first == '#')
                    if t.a[0].endswith('contains'):
                        return B(has)
            if t.op == 'is' and t.a[0].op == 'call' and t.a[0].a[0].endswith('::next') and contains(t.a[0], lambda y: y.op == 'call' and y.a[0].endswith('chars')):
                return B((t.a[2] == 'Some') == (first is not None))
            if t.op == 'vfld' and t.a[0].op == 'call' and t.a[0].a[0].endswith('::next') and contains(t.a[0], lambda y: y.op == 'call' and y.a[0].endswith('chars')):
                return I(ord(first or '5'))
            return t
        r = cond(rebuild(E, v, val, pre={ln: I(n)}))
        C.decide('line:' + key, r is B(first is not None and first != '#'), f, '%s: %s' % (text, show(v, 5)), decidable=r in (TRUE, FALSE))


def p05(pid, tier):
    C = Check(pid, tier, 'in the row parsers the loop-carried value that becomes a part of the record is changed only by the column kind it belongs to, to the number parsed from the text at that column\'s own position; unreadable, missing and unsupported columns and incomplete rows reach only error returns; the line ranges of nodes and edges are consecutive, start after the counts and have exactly the announced lengths; each line counts once')
    EDGE = R_ + 'fmi::<impl osmgraphing::network::graph::building::ProtoShortcut>::try_from_str'
    NODE = R_ + 'fmi::<impl osmgraphing::network::graph::building::ProtoNode>::from_str'
    E = C.run(EDGE)
    if E is not None:
        K = Columns(C, E, EDGE, PE + 'Category', {'Meta': ('info', PE + 'MetaInfo')})
        if K.x is not None:
            r = record(E, None)
            for n, k, ty, pre in (('id', 'EdgeId', 'usize', 'ch'), ('src_id', 'SrcId', 'i64', None), ('dst_id', 'DstId', 'i64', None), ('metrics', 'Metric', 'f64', None)):
                if n in r:
                    K.feeds(n, r[n], k, ty, prefix=pre)
                else:
                    C.undec('feeds:' + n, EDGE, 'no such part')
            for n in ('src_id', 'dst_id'):
                if n in r:
                    K.required(n, r[n])
            K.unsupported(['SrcIdx', 'SrcLat', 'SrcLon', 'DstIdx', 'DstLat', 'DstLon'])
            K.missing()
            # shortcuts
            sc = r.get('sc_edges')
            if sc is not None:
                arrs = [v for c, v in leaves(sc) if v.op == 'agg' and v.a[2] == 'Some']
                for v in arrs:
                    a = v.a[4][0]
                    if a.op == 'agg' and a.a[0] == 'array' and len(a.a[4]) == 2:
                        for i, k in ((0, 'ShortcutIdx0'), (1, 'ShortcutIdx1')):
                            K.feeds('shortcut[%d]' % i, a.a[4][i], k, 'usize', none='-1')
                        ps = [[t for t in subterms(a.a[4][i]) if t.op == 'phi'] for i in (0, 1)]
                        if all(len(q) == 1 for q in ps):
                            s0, s1 = [E.is_(q[0], OPTION, 'Some') for q in ps]
                            have = AND(NOT(more(K.j)), *[E.is_([t for t in subterms(r[n]) if t.op == 'phi'][0], OPTION, 'Some') for n in ('src_id', 'dst_id')])
                            for nm, care in (('first', AND(have, s0, NOT(s1))), ('second', AND(have, s1, NOT(s0)))):
                                only_err(C, E, 'one-shortcut-index:' + nm, care, EDGE, 'an edge with only its %s shortcut index' % nm)
                            okc = AND(have, s0, s1)
                            for c, x in ret_under(E, okc):
                                if variant_of(x) == 'Ok':
                                    rr = restrict(sc, okc)
                                    C.decide('shortcut-kept', all(variant_of(v) == 'Some' for c2, v in leaves(rr, c)), EDGE, 'an edge with both shortcut indices is a shortcut', decidable=all(variant_of(v) for c2, v in leaves(rr, c)))
                    else:
                        C.undec('shortcut', EDGE, show(a, 5))
        for e in nopanic(C, E, EDGE, 'panic'):
            C.decide('no-panic@edge-row', False, e.loc(), '%s can panic on a malformed row' % e.name, decidable=e.kind == 'panic')
        for f in (EDGE, NODE):
            no_slice(C, f)
    E = C.run(NODE)
    if E is not None:
        K = Columns(C, E, NODE, PN + 'Category', {'Meta': ('info', PN + 'MetaInfo'), 'Metric': ('unit', PN + 'metrics::UnitInfo')})
        if K.x is not None:
            r = record(E, None)
            for n, k, ty in (('id', 'NodeId', 'i64'), ('lat', 'Latitude', 'f64'), ('lon', 'Longitude', 'f64'), ('ch_level', 'CHLevel', 'usize')):
                if n in r:
                    K.feeds(n, r[n], k, ty)
                    if n != 'ch_level':
                        K.required(n, r[n])
                else:
                    C.undec('feeds:' + n, NODE, 'no such part')
            K.unsupported(['NodeIdx', 'Height'])
            K.missing()
        for e in nopanic(C, E, NODE, 'panic'):
            C.decide('no-panic@node-row', False, e.loc(), '%s can panic on a malformed row' % e.name, decidable=e.kind == 'panic')
    lines(C)
    functional(C)
    return C.finish(min_ok=20)


def no_slice(C, f):
    """indexing with a constant position into the texts of a row, or slicing a text, panics on short input"""
    E = C.run(f)
    for e in E.eff:
        if e.kind == 'index' and len(e.vals) > 1 and cint(e.vals[1]) is not None and contains(e.vals[0], lambda t: t.op == 'call' and 'split' in t.a[0]):
            n = cint(e.vals[1])
            inb = lt(e.vals[1], mk('len', e.vals[0]))
            C.decide('bounds@' + f, implies(e.pc, inb), e.loc(), 'position %d of the row is read without knowing that it exists' % n, decidable=known(e.vals[0]))


def lines(C):
    """line ranges: nodes directly after the counts, edges directly after the nodes"""
    PRE = '<' + R_ + 'fmi::Parser as ' + R_ + 'Parsing>::preprocess'
    FP = R_ + 'fmi::Parser'
    E = C.run(PRE)
    if E is not None and C.has_field(FP, 'node_lines', 'edge_lines'):
        self0 = E.final.mem.get(('A', 0))
        for c, x in leaves(E.ret):
            if variant_of(x) != 'Ok':
                continue
            nl = restrict(E.proj(self0, ('f', 'node_lines', FP)), c)
            el = restrict(E.proj(self0, ('f', 'edge_lines', FP)), c)
            g = lambda r, n: field(E, r, 'core::ops::range::Range', n)
            ns, ne, es, ee = g(nl, 'start'), g(nl, 'end'), g(el, 'start'), g(el, 'end')
            num = lambda a: a.op not in ('ite',)
            if not all(num(a) for a in (ns, ne, es, ee)):
                C.undec('lines', PRE, 'ranges not understood')
                continue
            C.decide('lines:consecutive', es is ne, PRE, 'the edges start at %s, the nodes end at %s' % (show(es, 5), show(ne, 5)))
            nc, ec = isub(ne, ns), isub(ee, es)
            C.decide('lines:start', ns.op == 'phi', PRE, 'the nodes start at the line counter: %s' % show(ns, 5), decidable=known(ns, extra=('phi',)))
            pops = []
            for nm, v in (('nodes', nc), ('edges', ec)):
                pp = [t for t in subterms(v) if t.op == 'call' and t.a[0].endswith('pop')]
                pops.append((nm, v, pp))
            # the last count read is the edge count, the one before it the node count
            ok = []
            for nm, v, pp in pops:
                if len(pp) == 1 and v.op == 'vfld' and v.a[0] is pp[0]:
                    depth = 0
                    q = pp[0].a[2][0]
                    while q.op == 'popped':
                        depth += 1
                        q = q.a[0]
                    C.decide('lines:count-of-' + nm, depth == (1 if nm == 'nodes' else 0), PRE, 'the number of %s is the %s announced number' % (nm, ['last', 'second last', 'third last'][min(depth, 2)]))
                else:
                    C.undec('lines:count-of-' + nm, PRE, show(v, 6))
            if ns.op == 'phi':
                n = E.phi_ops.get(ns, (None, None))[1]
                if n is not None:
                    C.decide('lines:counter', n is iadd(ns, I(1)) and E.phi_ops[ns][0] is I(0), PRE, 'every functional line before the rows counts once: ' + show(n, 5), decidable=known(n, extra=('phi',)))
    for nm, m, field_, sink in (('edges', 'parse_ways', 'edge_lines', ('proto_edges', 'proto_shortcuts')), ('nodes', 'parse_nodes', 'node_lines', ('node_coords', 'proto_nodes', 'node_ids'))):
        f = '<%sfmi::Parser as %sParsing>::%s' % (R_, R_, m)
        E = C.run(f)
        if E is None or not C.has_field(FP, field_):
            continue
        rngv = fld(mk('arg', 0), FP, field_)
        con = []
        for e in E.eff:
            for a in atoms_of(e.pc):
                for t in [a] + list(subterms(a)):
                    if t.op == 'call' and t.a[0].endswith('Range::<Idx>::contains') and t.a[2][0] is rngv and t not in con:
                        con.append(t)
        if not con:
            C.undec('rows-in-range:' + nm, f, 'no test of the line number against the range of the %s' % nm)
            continue
        for t in con:
            ln = t.a[2][1]
            A = _atom(t)
            # every row in the range ends in the builder, or the parser fails
            kept = []
            for p, (i, n) in E.phi_ops.items():
                nm_ = p.a[3][-1][1] if len(p.a) > 3 and p.a[3] and isinstance(p.a[3][-1], tuple) and len(p.a[3][-1]) > 1 else None
                if nm_ in sink[:2] and n is not None and ln.op == 'phi' and p.a[:2] == ln.a[:2]:
                    kept.append((nm_, OR(*[c for c, v in leaves(n, AND(A, E.back_pc.get(p.a[:2], TRUE))) if v is p] or [FALSE])))
            if nm == 'nodes':
                kept = [(q, c) for q, c in kept if q == 'node_coords']
                # nodes that no edge mentions are not part of the graph
                kept = [(q, AND(c, *[a_ for a_ in (_atom(a) for a in atoms_of(c)) if a_.a and any(y.op == 'call' and 'binary_search' in str(y.a[0]) for y in subterms(a_))])) for q, c in kept]
            if kept and (nm == 'nodes' or {q for q, c in kept} >= set(sink)):
                un = AND(*[c for q, c in kept])
                C.decide('rows-inserted:' + nm, un is FALSE, f, 'every row of the %s is handed to the builder%s' % (nm, '' if un is FALSE else ', but not if ' + show(restrict(un, ok_assumption(E)), 6)[:200]), decidable=not any('widened' in q for q in E.notes))
            else:
                C.undec('rows-inserted:' + nm, f, 'state of the builder not followed')
            pr = [e for e in E.eff if e.kind == 'call' and e.name.endswith('::parse')]
            C.decide('rows-in-range:' + nm, bool(pr) and all(implies(e.pc, A) for e in pr), f, 'only lines in the range of the %s are parsed as %s' % (nm, nm), decidable=bool(pr) and all(AND(e.pc, A) is FALSE for e in pr))
            if ln.op == 'phi' and E.phi_ops.get(ln, (None, None))[1] is not None:
                i, n = E.phi_ops[ln]
                C.decide('line-counter:' + nm, i is I(0) and n is iadd(ln, I(1)), f, 'the line number starts at %s and becomes %s' % (show(i, 3), show(n, 5)), decidable=known(i, extra=('phi',)) and known(n, extra=('phi',)))
                # fewer rows than announced
                end = fld(rngv, 'core::ops::range::Range', 'end')
                few = lt(ln, end)
                okc = ok_assumption(E)
                lp = [e for e in E.eff if e.kind == 'call' and e.name.endswith('lines')]
                out = [(c, x) for c, x in ret_under(E, few) if variant_of(x) == 'Ok']
                C.decide('announced:' + nm, not out, f, 'a file with fewer %s than announced makes the parser fail' % nm,
                         decidable=not any(a.op in ('neg', 'zero') and contains(a, lambda t: (t is rngv and not contains(a, lambda q: q is ln)) or (t.op == 'phi' and t is not ln and t.a[:2] == ln.a[:2])) for c, x in out for a in atoms_of(c) if a not in atoms_of(few)))


def field(E, v, adt, name):
    if v.op == 'ite':
        return ITE(v.a[0], field(E, v.a[1], adt, name), field(E, v.a[2], adt, name))
    return E.proj(v, ('f', name, adt))





PIPE = ('osmgraphing::io::parsing', 'osmgraphing::network', 'osmgraphing::configs')
LOOKUP = ('binary_search', 'env::var', 'try_recv')


def isres(ty):
    return (ty or '').startswith('core::result::Result<')


def result_fns(P):
    return [f for f in P.fns.values() if isres(f['locals'][0]) and '::_::' not in f['path'] and '{closure' not in f['path'] and not is_testfn(f)]


def failing(E, extra=()):
    return [e for e in E.eff if e.kind in ('call', 'write', 'flush') and e.val is not None and (isres(e.ret) or e.kind != 'call' or e.name.endswith('::parse'))
            and not any(x in e.name for x in LOOKUP) and not any(x in e.name for x in extra)]


def skipped(C, E, f):
    """items of a sequence that may be errors must not be filtered out or ignored"""
    terms = [e.pc for e in E.eff] + [E.ret] + list(E.back_pc.values()) + [c for it, c, pc, w in E.elems.values()]
    items = [x for x in subjects(terms, RESULT) if x.op == 'idx' and x.a[1].op == 'rng']
    for x in items:
        ok = E.is_(x, RESULT, 'Ok')
        if x.a[1] in E.elems:
            it, c, pc, w = E.elems[x.a[1]]
            key = 'items@' + f['path']
            if contains(c, lambda t: t is x):
                lost = implies(c, ok) and AND(pc, NOT(ok)) is not FALSE
                C.decide(key, not lost, f['path'], 'a failed item of the sequence is not dropped silently')
                continue
        for k, pc in E.back_pc.items():
            if contains(pc, lambda t: t is x):
                lost = AND(pc, NOT(ok))
                # the iteration goes on although the item is an error: is it because of the error, or was the item not examined?
                C.decide('items@' + f['path'], lost is FALSE, f['path'], 'the loop does not go on after a failed item', decidable=implies(AND(lost, more(x.a[1])), NOT(ok)))


def returned(C, E, f):
    """iterators handed out by a function must not drop failed items either"""
    for c, x in leaves(E.ret):
        if variant_of(x) != 'Ok':
            continue
        v = E.proj(x, ('vf', 'Ok', '0', RESULT))
        for c2, it in leaves(v):
            if it.op not in ('it', 'itp'):
                continue
            key = 'items@' + f['path']
            try:
                r = elem_of(E, f, it)
            except Exception:
                r = None
            if r is None:
                C.undec(key, f['path'], 'iterator not followed: %s' % show(it, 4))
                continue
            n, cnd, el, j = r
            for y in subjects([cnd, el], RESULT):
                if not contains(y, lambda t: t is j):
                    continue
                ok = E.is_(y, RESULT, 'Ok')
                if contains(cnd, lambda t: t is y):
                    C.decide(key, not implies(cnd, ok), f['path'], 'a failed item of the delivered sequence is not dropped silently')
                else:
                    C.ok(key, f['path'], 'a failed item of the delivered sequence is not dropped silently')


def p06(pid, tier):
    C = Check(pid, tier, 'in every function of the parsing, building and configuration modules that returns a Result, the failure of each fallible call (library or local) reaches only returns of Err; failed items of iterated sequences are neither filtered out nor skipped')
    fs = result_fns(C.P)
    ni = {f['path'] for f in fs}
    for f in fs:
        if not f['path'].lstrip('<').startswith(PIPE):
            continue
        E = C.run(f['path'], f['crate'], key='mod', no_inline=ni - {f['path']})
        if E is None:
            continue
        swallowed(C, E, [e for e in failing(E) if e.fn.lstrip('<').startswith(PIPE)], 'failure')
        skipped(C, E, f)
        returned(C, E, f)
    return C.finish(min_ok=200)


TASKS = [('is_writing_graph', 'io::writing::network::graph::Writer::write', 'writing_graph'),
         ('is_writing_edges', 'io::writing::network::edges::Writer::write', 'writing_edges'),
         ('is_writing_route_pairs', 'io::writing::routing::Writer::write', 'writing_route-pairs'),
         ('is_routing', 'do_simply_routing', 'routing'),
         ('is_balancing', 'balancing::run', 'balancing'),
         ('is_evaluating_balance', 'do_evaluating_routing', 'evaluating_balance')]


def p07(pid, tier):
    C = Check(pid, tier, 'no path of an executable\'s main returns normally after a fallible step failed, and no exit with code 0 follows a failure; every Result-returning function of the executables hands failures on; a success return of the run requires, for each command-line flag, that the flag is off or its task was called and succeeded, and a task is called only under its own flag; each flag is the presence of its own command-line option')
    P = C.P
    fs = result_fns(P)
    ni = {f['path'] for f in fs}
    bins = [f for f in fs if f['crate'].endswith('-bin') or f['path'].startswith('osmgraphing::multi_ch_constructor')]
    own = {f['path'] for f in P.fns.values() if (f['crate'].endswith('-bin') or f['path'].startswith('osmgraphing::multi_ch_constructor')) and '::multithreading' not in f['path']}
    for f in bins:
        if f['path'] not in own:
            continue
        E = C.run(f['path'], f['crate'], key='mod', no_inline=ni - {f['path']})
        if E is None:
            continue
        swallowed(C, E, [e for e in failing(E) if e.fn in own], 'failure')
        skipped(C, E, f)
    for f in P.fns.values():
        if f['crate'].endswith('-bin') and f['path'].split('::')[-1] == 'main' and f['kind'] == 'Fn':
            E = C.run(f['path'], f['crate'], key='main', no_inline=ni)
            if E is None:
                continue
            fl = failing(E)
            C.decide('main-calls@' + f['path'], any(e.name.endswith('::run') for e in fl), f['path'], 'main runs the program', decidable=True)
            for e in fl:
                bad = AND(e.pc, NOT(E.is_(e.val, RESULT, 'Ok')))
                end = AND(bad, E.final.pc) if E.final is not None else FALSE
                ret = ret_under(E, bad)
                isreturned = ret and all(x is e.val or variant_of(x) == 'Err' for c, x in ret)
                C.decide('exit-status:%s@%s' % (e.name.split('::')[-1], f['path']), end is FALSE or isreturned, e.loc(), 'after a failure of this step the program does not end successfully')
            for e in E.eff:
                if e.kind == 'exit' and e.vals:
                    n = cint(e.vals[0])
                    failed = all(AND(e.pc, E.is_(x.val, RESULT, 'Ok')) is FALSE for x in fl if x.name.endswith('::run')) if any(x.name.endswith('::run') for x in fl) else False
                    C.decide('exit-code@' + f['path'], not (n == 0 and failed), e.loc(), 'exit with code %s' % n, decidable=n is not None)
    # tasks
    R = P.find('osmgraphing::run', 'osmgraphing-bin')
    if R is not None:
        E = C.run('osmgraphing::run', 'osmgraphing-bin', key='mod', no_inline=ni - {'osmgraphing::run'})
        CA = 'osmgraphing::CmdlineArgs'
        for flag, callee, opt in TASKS:
            if not C.has_field(CA, flag):
                C.undec('task:' + flag, '', 'no such flag')
                continue
            A = _atom(fld(mk('arg', 0), CA, flag))
            es = [e for e in E.eff if e.kind == 'call' and e.name.endswith(callee) and e.ret and isres(e.ret)]
            if not es:
                C.undec('task:' + flag, '', 'the task is not called')
                continue
            done = FALSE
            for e in es:
                if callee == 'do_simply_routing':
                    # simple routing is also requested without its flag by nothing else
                    ev = _atom(fld(mk('arg', 0), CA, 'is_evaluating_balance'))
                    only = implies(e.pc, A)
                else:
                    only = implies(e.pc, A)
                C.decide('only-if:' + flag, only, e.loc(), 'the task %s is done only if requested' % callee)
                done = OR(done, AND(e.pc, E.is_(e.val, RESULT, 'Ok')))
                # on the graph and with the configuration of the command line
                if 'Writer' in callee:
                    cfgarg = e.vals[-1]
                    m = {'is_writing_graph': 'writing::network::graph', 'is_writing_edges': 'writing::network::edges', 'is_writing_route_pairs': 'writing::routing'}[flag]
                    ok = cfgarg.op == 'vfld' and cfgarg.a[0].op == 'call' and cfgarg.a[0].a[0].endswith(m + '::Config::try_from_yaml') and cfgarg.a[0].a[2][0] is fld(mk('arg', 0), CA, 'cfg')
                    C.decide('config:' + flag, ok, e.loc(), 'the task uses the configuration file of the command line', decidable=known(cfgarg) and cfgarg.op in ('vfld', 'with', 'agg'))
            skip = AND(A, NOT(done))
            if callee == 'do_simply_routing':
                skip = AND(skip, NOT(_atom(fld(mk('arg', 0), CA, 'is_evaluating_balance'))))
            bad = [(c, x) for c, x in ret_under(E, skip) if variant_of(x) == 'Ok']
            C.decide('if:' + flag, not bad, es[0].loc(), 'a successful run has done the requested task %s' % callee)
    f = P.find('<osmgraphing::CmdlineArgs as core::convert::TryFrom<clap::args::arg_matches::ArgMatches<\'a>>>::try_from', 'osmgraphing-bin') or next((g for g in P.fns.values() if g['crate'] == 'osmgraphing-bin' and g['path'].endswith('::try_from')), None)
    pc = P.find('osmgraphing::parse_cmdline', 'osmgraphing-bin')
    if f is not None and pc is not None:
        E = C.run(f['path'], f['crate'], key='mod', no_inline=())
        E2 = C.run(pc['path'], pc['crate'], key='mod', no_inline=ni - {pc['path']})
        long = {}
        tt = [E2.ret] + [v for e in E2.eff for v in (e.vals or ())]
        for t in tt:
            for x in subterms(t):
                if x.op == 'call' and x.a[0].endswith('::long') and len(x.a[2]) == 2:
                    w = [y for y in subterms(x.a[2][0]) if y.op == 'call' and y.a[0].endswith('with_name')]
                    if len(w) == 1 and w[0].a[2][0].op == 'c' and x.a[2][1].op == 'c':
                        long[w[0].a[2][0].a[1]] = x.a[2][1].a[1]
        for c, x in leaves(E.ret):
            if variant_of(x) != 'Ok' or x.a[4][0].op != 'agg':
                continue
            r = dict(zip(x.a[4][0].a[3], x.a[4][0].a[4]))
            for flag, callee, opt in TASKS:
                v = r.get(flag)
                v = restrict(v, c) if v is not None else None
                if v is None:
                    continue
                ids = [y.a[2][1].a[1] for y in subterms(v) if y.op == 'call' and y.a[0].endswith('is_present') and y.a[2][1].op == 'c']
                if v.op == 'call' and len(ids) == 1:
                    C.decide('option:' + flag, long.get(ids[0]) == opt, f['path'], 'the flag is the presence of --%s' % long.get(ids[0]), decidable=ids[0] in long)
                elif ids and len(ids) == len(set(ids)) and all(i in long for i in ids) and len([i for i in ids if long[i] == opt]) == 1:
                    # a combination of switches: the own one decides alone
                    atoms = {}
                    for y in subterms(v):
                        if y.op == 'call' and y.a[0].endswith('is_present') and y.a[2][1].op == 'c':
                            atoms[long[y.a[2][1].a[1]]] = _atom(y)
                    others = [a for o, a in atoms.items() if o != opt]
                    for own in (True, False):
                        for bits in range(1 << len(others)):
                            c0 = AND(atoms[opt] if own else NOT(atoms[opt]), *[a if bits >> i & 1 else NOT(a) for i, a in enumerate(others)])
                            w = restrict(v, c0)
                            C.decide('option:' + flag, w.op == 'c' and bool(w.a[1]) == own, f['path'], 'the flag is the presence of --%s, whatever else is given: %s' % (opt, show(v, 6)), decidable=w.op == 'c' and w.a[0] == 'bool')
                else:
                    C.undec('option:' + flag, f['path'], show(v, 6))
            v = r.get('cfg')
            if v is not None:
                ids = [y.a[2][1].a[1] for y in subterms(v) if y.op == 'call' and y.a[0].endswith('value_of') and y.a[2][1].op == 'c']
                if len(ids) == 1:
                    C.decide('option:cfg', long.get(ids[0]) == 'config', f['path'], 'the configuration is the value of --%s' % long.get(ids[0]), decidable=ids[0] in long)
    return C.finish(min_ok=40)


CHECKS = {'P05': p05, 'P06': p06, 'P07': p07}
