"""P10: options of configuration files reach the settings they name"""
import re
from ..lib import *

DROP = {'writing', 'edges_info', 'graph', 'balancing', 'routing', 'parsing', 'evaluating_balance', 'route_pairs', 'data', 'categories', 'multi_ch_constructor', 'metrics', '0', 'Some', 'Id', 'Metric'}
ALIAS = {'number_of_metric_updates': 'num_metric_updates', 'num_iter': 'num_metric_updates', 'are_metrics_normalized': 'are_normalized', 'ids': 'id', 'units': 'unit'}
# settings which take another source on purpose: the rows of edges go into the file of the graph
ALSO = {(('edges', 'file'), ('map_file',)), (('file',), ('map_file',)), (('nodes', 'id'), ('nodes',)), (('id',), ())}
# documented defaults (resources/blueprint.yaml)
DEFAULTS = {'seed': 42, 'num_threads': 4, 'contraction_ratio': '99.8', 'is_writing_for_smarts': False, 'is_writing_shortcuts': False, 'is_denormalizing': False, 'is_err_when_metric_is_zero': True,
            'are_normalized': False, 'alpha': 1.0, 'default': 0.0, 'is_file_with_header': True, 'are_drivers_picky': True, 'tolerated_scale': float('inf')}
CONV = re.compile(r'^<(osmgraphing::[\w:]+) as core::convert::(Try)?From<(osmgraphing::[\w:]+)>>::(try_)?from$')


def norm(names):
    return tuple(ALIAS.get(n, n) for n in names if n not in DROP)


class Path:
    def __init__(self, t, steps, plain):
        self.t, self.steps, self.plain = t, steps, plain
        self.names = norm([s[0] for s in steps])


def path_of(t):
    """a part of the source value: fields, payloads and elements in order"""
    steps, plain = [], True
    x = t
    while True:
        if x.op == 'fld':
            steps.append((x.a[2], x.a[1]))
            x = x.a[0]
        elif x.op == 'vfld':
            if x.a[1] in ('Some', 'Ok'):
                steps.append(('Some', ''))
            else:
                steps.append((str(x.a[2]), ''))
                steps.append((x.a[1], ''))
            x = x.a[0]
        elif x.op == 'idx':
            plain = plain and x.a[1].op == 'rng'
            x = x.a[0]
        elif x.op == 'arg' and x.a[0] == 0:
            return Path(t, steps[::-1], plain)
        else:
            return None


def fields_of(C, adt):
    a = C.P.adts.get(adt)
    return {f[0] for v in a['variants'] for f in v['fields']} if a else set()


def const_of(x):
    if x in (TRUE, FALSE):
        return x is TRUE
    if x.op == 'c':
        v = x.a[1]
        try:
            return float(v) if x.a[0] not in ('str', 'int') and not isinstance(v, bool) else v
        except (TypeError, ValueError):
            return v
    return None


class Conv:
    def __init__(self, C, E, w, key, src, dst):
        self.C, self.E, self.w, self.key, self.src, self.dst = C, E, w, key, src, dst
        self.loops = []
        self.srcfields = fields_of(C, src)
        inner = [f for f in self.srcfields]
        # a wrapper with a single field stands for its content
        a = C.P.adts.get(src)
        for _ in range(3):
            if a and len(a['variants']) == 1 and len(a['variants'][0]['fields']) == 1:
                a = C.P.adts.get(a['variants'][0]['fields'][0][1])
                if a:
                    self.srcfields |= {f[0] for v in a['variants'] for f in v['fields']}
        self.srcfields = {ALIAS.get(f, f) for f in self.srcfields}
        self.srcpaths = set()
        self.walk(src, (), 0)

    def walk(self, adt, pre, depth):
        """names of all parts of the source"""
        a = self.C.P.adts.get(adt)
        if a is None or depth > 7:
            return
        for v in a['variants']:
            for f in v['fields']:
                q = pre + ((v['name'],) if v['name'] != adt.split('::')[-1] else ()) + (f[0],)
                self.srcpaths.add(norm(q))
                for inner in re.findall(r'osmgraphing::[\w:]+', f[1]):
                    self.walk(inner, q, depth + 1)

    def has(self, D):
        d = norm(D)
        return d in self.srcpaths or any((d, s) in ALSO for s in self.srcpaths)

    def single(self, D):
        """the only variant of the part of the source"""
        d, out = norm(D), set()

        def go(adt, pre, depth):
            a = self.C.P.adts.get(adt)
            if a is None or depth > 7:
                return
            for v in a['variants']:
                for f in v['fields']:
                    q = pre + ((v['name'],) if v['name'] != adt.split('::')[-1] else ()) + (f[0],)
                    for inner in re.findall(r'osmgraphing::[\w:]+', f[1]):
                        if norm(q) == d:
                            out.add(inner)
                        go(inner, q, depth + 1)
        go(self.src, (), 0)
        vs = {v for a in out for v in variants(self.C, a)}
        return vs.pop() if len(vs) == 1 else None

    def subjects(self, c, D):
        """tested parts of the source with the path of the setting"""
        out = []
        for a in atoms_of(c):
            if a.op == 'is':
                p = path_of(a.a[0])
                if p is not None and self.same(D, p.names) and self.current(a.a[0]):
                    out.append((a.a[0], a.a[1]))
        return list(dict.fromkeys(out))

    def current(self, t):
        """elements of the loop which builds the list"""
        return all(r.a[:2] in self.loops for r in subterms(t) if r.op == 'rng')

    def present(self, t):
        c = TRUE
        for s in subterms(t):
            if s.op == 'vfld' and s.a[1] == 'Some':
                c = AND(c, self.E.is_(s.a[0], OPTION, 'Some'))
        return c

    def same(self, D, S):
        D = norm(D)
        return D == S or (D, S) in ALSO or (len(D) < len(S) and len(D) > 0 and S[len(S) - len(D):] == D) or (len(S) < len(D) and S and D[len(D) - len(S):] == S and D[:len(D) - len(S)] == ('edges',))

    def label(self, D):
        return '%s:%s' % (self.key, '.'.join(D) if D else 'value')

    def missing(self, c, D):
        """the option is absent: no tested Option of this path can be Some"""
        s = [(t, a) for t, a in self.subjects(c, D)]
        d = norm(D)
        for a in atoms_of(c):
            if a.op == 'is' and a.a[1] == OPTION:
                p = path_of(a.a[0])
                if p is not None and len(p.names) < len(d) and p.names == d[:len(p.names)] and self.current(a.a[0]) and AND(c, self.E.is_(a.a[0], OPTION, 'Some')) is FALSE:
                    return True
        if not s:
            return None
        for t, a in s:
            v = 'Some' if a == OPTION else 'Id'
            if AND(c, self.E.is_(t, a, v)) is not FALSE:
                return False
        return True

    def go(self, v, c, D):
        C, E = self.C, self.E
        name = norm(D)[-1] if norm(D) else ''
        ls = leaves(v, c)
        if any(x in (TRUE, FALSE) or x.op in ('is', 'not') for _, x in ls) and all(x in (TRUE, FALSE) or x.op in ('is', 'not') or path_of(x) is not None for _, x in ls):
            self.boolean(v, c, D, name)
            return
        for c2, x in ls:
            if c2 is FALSE or x is UNDEF:
                continue
            self.leaf(x, c2, D, name)

    def boolean(self, v, c, D, name):
        C, E, k = self.C, self.E, self.label(D)
        v = cond(v)
        if v in (TRUE, FALSE):
            if name in self.srcfields:
                C.decide(k, False, self.w, 'the option %s is replaced by the constant %s' % (name, v is TRUE))
            return
        ps = [p for p in (path_of(a) for a in atoms_of(v) if a.op != 'is') if p is not None]
        if len(ps) != 1 or any(path_of(a.a[0]) is None for a in atoms_of(v) if a.op == 'is'):
            C.undec(k, self.w, show(v, 5))
            return
        p = ps[0]
        self.cross(k, D, p)
        some = TRUE
        for a in atoms_of(v):
            if a.op == 'is' and a.a[1] == OPTION:
                some = AND(some, E.is_(a.a[0], OPTION, 'Some'))
        for val in (TRUE, FALSE):
            r = restrict(v, AND(c, some, cond(p.t) if val is TRUE else NOT(cond(p.t))))
            C.decide(k + ':' + str(val is TRUE).lower(), r is val, self.w, 'the given value is taken as it is: %s' % show(v, 5), decidable=r in (TRUE, FALSE))
        if some is not TRUE:
            r = restrict(v, AND(c, NOT(some)))
            self.default(k, name, r)

    def default(self, k, name, r):
        d, want = const_of(r), DEFAULTS.get(name)
        if want is not None and d is not None:
            self.C.decide(k + ':default', d == want, self.w, 'without %s, the documented default %s is used: %s' % (name, want, d))

    def cross(self, k, D, p):
        """the setting is taken from the part of the same name"""
        C = self.C
        d = norm(D)
        if self.same(D, p.names):
            if not p.plain:
                C.decide(k, False, self.w, 'the order of elements is kept: %s' % show(p.t, 5), decidable=False)
            else:
                C.ok(k, self.w, 'taken from %s' % show(p.t, 4))
            return
        raw = [(ALIAS.get(n, n), o) for n, o in p.steps if n not in DROP]
        i = 1
        while i <= min(len(d), len(raw)) and d[-i] == raw[-i][0]:
            i += 1
        wrong = False
        if i <= len(d) and i <= len(raw):
            n, owner = raw[-i]
            sib = {ALIAS.get(f, f) for f in fields_of(C, owner)} if owner else set()
            wrong = d[-i] in sib or d[-i] in self.srcfields
        C.decide(k, False, self.w, 'the setting %s is taken from %s' % ('.'.join(d), show(p.t, 5)), decidable=wrong)

    def complete(self, x, pushes, k):
        """no element of the list of the source is skipped"""
        C, E = self.C, self.E
        lk = loopkey(x)
        if any(ks != (lk,) for ks, _, _ in pushes):
            return
        bp = E.back_pc.get(lk, TRUE)
        allc = OR(*[cc for _, cc, _ in pushes])
        need = {}
        for _, cc, vs in pushes:
            for y in vs:
                for c2, z in leaves(y, cc):
                    if c2 is FALSE:
                        continue
                    for s in subterms(z):
                        if s.op == 'vfld' and s.a[0].op == 'idx' and path_of(s.a[0]) is not None:
                            a = [t.a[1] for t in atoms_of(c2) if t.op == 'is' and t.a[0] is s.a[0]]
                            if a:
                                need.setdefault((s.a[0], a[0]), set()).add(s.a[1])
                    if z.op == 'agg' and z.a[0] == 'adt' and len(variants(C, z.a[1])) > 1:
                        for t in atoms_of(c2):
                            if t.op == 'is' and t.a[0].op == 'idx' and path_of(t.a[0]) is not None and set(variants(C, z.a[1])) >= set(variants(C, t.a[1])) and self.E is not None and t.a[0].a[1].op == 'rng' and t.a[0].a[1].a[:2] == lk:
                                need.setdefault((t.a[0], t.a[1]), set()).update(variants(C, t.a[1]))
        for (t, a), vs in need.items():
            if t.a[1].op != 'rng' or t.a[1].a[:2] != lk:
                continue
            for V in sorted(vs):
                pre = AND(bp, E.is_(t, a, V))
                if pre is FALSE:
                    continue
                r = restrict(allc, pre)
                C.decide('%s:each:%s' % (k, V), r is TRUE, self.w, 'every element %s of the list is taken: %s' % (V, show(r, 5)), decidable=known(r, ('rng', 'vfld', 'is', 'phi')))

    def leaf(self, x, c, D, name):
        C, E, k = self.C, self.E, self.label(D)
        p = path_of(x)
        if p is not None:
            self.cross(k, D, p)
            return
        if x.op == 'agg' and x.a[0] == 'adt':
            adt, W = x.a[1], x.a[2]
            if adt == OPTION:
                if W == 'Some':
                    self.go(x.a[4][0], c, D)
                else:
                    m = self.missing(c, D)
                    if m is None:
                        if name in self.srcfields:
                            C.decide(k, False, self.w, 'the option %s is dropped' % name)
                    else:
                        C.decide(k + ':absent', m, self.w, 'absent only if it is absent in the file')
                return
            vs = variants(C, adt)
            if len(vs) > 1:
                ss = [(t, a) for t, a in self.subjects(c, D) if a in C.P.adts and a != OPTION]
                if not ss and not norm(D):
                    ss = [(t, a) for at in atoms_of(c) if at.op == 'is' for t, a in [(at.a[0], at.a[1])] if a in C.P.adts and t.op == 'arg']
                sv = variants(C, self.src)
                if not ss and not norm(D) and len(sv) == 1 and sv[0] != self.src.split('::')[-1]:
                    C.decide('%s:%s' % (k, sv[0]), sv[0] == W, self.w, '%s becomes %s' % (sv[0], W), decidable=sv[0] in vs)
                elif not ss and not norm(D) and c is TRUE and len(sv) > 1 and all(x in vs for x in sv):
                    C.decide('%s:%s' % (k, W), False, self.w, 'every variant becomes %s' % W)
                elif not ss:
                    nosrc = self.missing(c, D)
                    if nosrc:
                        C.ok(k + ':default', self.w, 'default %s' % W)
                    elif nosrc is None and self.has(D):
                        one = self.single(D)
                        if one is not None:
                            C.decide('%s:%s' % (k, one), one == W, self.w, '%s becomes %s' % (one, W), decidable=one in vs)
                        else:
                            C.decide(k, False, self.w, 'the option %s is replaced by the constant %s' % (name, W))
                    else:
                        C.undec(k + ':' + W, self.w, 'variant %s without test' % W)
                for t, a in ss:
                    for V in variants(C, a):
                        if AND(c, self.present(t), E.is_(t, a, V)) is FALSE:
                            continue
                        C.decide('%s:%s' % (k, V), V == W, self.w, '%s becomes %s' % (V, W), decidable=V in vs)
            for f, y in zip(x.a[3], x.a[4]):
                self.go(y, c, D + ((W,) if W != adt.split('::')[-1] else ()) + (f,))
            return
        if x.op == 'collect':
            j, cc, body = x.a[:3]
            lists = {q.names for q in (path_of(s.a[0]) for s in subterms(body) if s.op == 'idx') if q is not None}
            n = j.a[2] if j.op == 'rng' else None
            q = path_of(n.a[0]) if n is not None and n.op == 'len' else None
            C.decide(k + ':all', cc is TRUE, self.w, 'all elements of the list are taken: %s' % show(cc, 4), decidable=cc is not TRUE and known(cc, ('rng', 'vfld', 'is')))
            self.loops.append(j.a[:2])
            self.go(body, c, D)
            self.loops.pop()
            return
        if x.op == 'phi':
            g = grown(E, x)
            if g is None or not is_empty(g[0]):
                C.undec(k, self.w, show(x, 4))
                return
            self.complete(x, g[1], k)
            for ks, cc, vs in g[1]:
                self.loops += ks
                for y in vs:
                    self.go(y, AND(c, cc), D)
                del self.loops[len(self.loops) - len(ks):]
            return
        if const_of(x) is not None:
            texts = [a for a in atoms_of(c) if a.op == 'eq' and any(y.op == 'c' and y.a[0] == 'str' and str(y.a[1]).startswith('inf') for y in a.a)]
            if name == 'tolerated_scale' and const_of(x) == float('inf') and texts:
                for a in texts:
                    c = AND(c, NOT(a))
            m = self.missing(c, D) if c is not FALSE else True
            if m is None and name not in self.srcfields:
                return
            if m:
                self.default(k, name, x)
                C.ok(k + ':absent', self.w, 'default only if absent')
            else:
                C.decide(k, False, self.w, 'the option %s is replaced by %s' % (name, show(x, 3)), decidable=name in self.srcfields or m is False)
            return
        ps = [q for q in (path_of(s) for s in subterms(x)) if q is not None and q.steps]
        full = [q for q in ps if self.same(D, q.names)]
        if name == 'num_metric_updates' and D[-1] == 'num_iter':
            C.decide(k, any(isub(x, q.t) is I(1) for q in full), self.w, 'one iteration more than updates of the metric: %s' % show(x, 4), decidable=x.op == 'lin')
            return
        if x.op == 'vfld' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0].endswith('parse'):
            q = [q for q in ps]
            C.decide(k, any(self.same(D, y.names) for y in q), self.w, 'parsed from %s' % show(x, 5), decidable=False)
            return
        if x.op in ('call', 'lin', 'bin', 'cast') and full:
            C.decide(k, x.op == 'cast', self.w, 'the given value is taken as it is: %s' % show(x, 5), decidable=x.op in ('lin', 'bin'))
        else:
            C.undec(k, self.w, show(x, 5))


def variants(C, adt):
    a = C.P.adts.get(adt)
    return [v['name'] for v in a['variants']] if a else []


OPTION = 'core::option::Option'

# structure -> {key in the file: field or variant}; strict: other keys are errors
KEYS = {
    'configs::balancing::RawConfig': (False, {'balancing': 'balancing'}),
    'configs::balancing::RawContent': (None, {'seed': 'seed', 'results-dir': 'results_dir', 'iter-0-cfg': 'iter_0_cfg', 'iter-i-cfg': 'iter_i_cfg', 'number_of_metric-updates': 'number_of_metric_updates', 'monitoring': 'monitoring', 'optimizing_with': 'optimization', 'number_of_threads': 'num_threads', 'min_new_metric': 'min_new_metric', 'throw_err_when_new_metric_is_zero': 'is_err_when_metric_is_zero'}),
    'configs::balancing::RawMonitoringConfig': (None, {'export_vehicles_for_SMARTS': 'is_writing_for_smarts'}),
    'configs::balancing::RawOptimization': (True, {'metric-id': 'metric_id', 'method': 'method'}),
    'configs::balancing::RawOptimizationMethod': (True, {'explicit_euler': 'ExplicitEuler', 'averaging': 'Averaging'}),
    'configs::evaluating_balance::RawConfig': (False, {'evaluating_balance': 'evaluating_balance'}),
    'configs::evaluating_balance::RawContent': (True, {'seed': 'seed', 'results-dir': 'results_dir', 'monitoring': 'monitoring', 'number_of_threads': 'num_threads'}),
    'configs::parsing::RawConfig': (False, {'parsing': 'parsing'}),
    'configs::parsing::RawContent': (True, {'map-file': 'map_file', 'vehicles': 'vehicles', 'nodes': 'nodes', 'edges': 'edges', 'generating': 'generating'}),
    'configs::parsing::vehicles::RawConfig': (True, {'category': 'category', 'are_drivers_picky': 'are_drivers_picky'}),
    'network::vehicles::Category': (True, {'Car': 'Car', 'Bicycle': 'Bicycle', 'Pedestrian': 'Pedestrian'}),
    'configs::parsing::nodes::RawCategory': (True, {'meta': 'Meta', 'metric': 'Metric', 'ignored': 'Ignored'}),
    'configs::parsing::nodes::RawMetaInfo': (True, {'NodeId': 'NodeId', 'CHLevel': 'CHLevel'}),
    'configs::parsing::nodes::metrics::RawUnitInfo': (True, {'Latitude': 'Latitude', 'Longitude': 'Longitude'}),
    'configs::parsing::edges::RawConfig': (True, {'will_normalize_metrics_by_mean': 'are_metrics_normalized', 'data': 'data'}),
    'configs::parsing::edges::RawCategory': (True, {'meta': 'Meta', 'metric': 'Metric', 'ignored': 'Ignored'}),
    'configs::parsing::edges::RawMetaInfo': (True, {x: x for x in ('EdgeId', 'SrcId', 'DstId', 'ShortcutIdx0', 'ShortcutIdx1')}),
    'configs::parsing::edges::metrics::RawUnitInfo': (True, {x: x for x in ('Meters', 'Kilometers', 'Seconds', 'Minutes', 'Hours', 'KilometersPerHour', 'LaneCount', 'F64')}),
    'configs::parsing::generating::RawConfig': (True, {'nodes': 'nodes', 'edges': 'edges'}),
    'configs::parsing::generating::nodes::RawCategory': (True, {'meta': 'Meta'}),
    'configs::parsing::generating::nodes::RawMetaInfo': (True, {'NodeIdx': 'NodeIdx'}),
    'configs::parsing::generating::edges::RawCategory': (True, {'meta': 'Meta', 'custom': 'Custom', 'haversine': 'Haversine', 'copy': 'Copy', 'convert': 'Convert', 'calc': 'Calc', 'merge': 'Merge'}),
    'configs::parsing::generating::edges::RawMetaInfo': (True, {x: x for x in ('EdgeId', 'SrcIdx', 'SrcLat', 'SrcLon', 'DstIdx', 'DstLat', 'DstLon')}),
    'configs::parsing::generating::edges::metrics::RawUnitInfo': (True, {x: x for x in ('Meters', 'Kilometers', 'Seconds', 'Minutes', 'Hours', 'KilometersPerHour', 'LaneCount', 'F64')}),
    'configs::parsing::generating::edges::metrics::RawCategory': (None, {'unit': 'unit', 'id': 'id'}),
    'configs::parsing::generating::edges::merge::RawCategory': (True, {'id': 'Id', 'ignored': 'Ignored'}),
    'configs::routing::RawConfig': (False, {'routing': 'routing'}),
    'configs::routing::RawContent': (True, {'route-pairs-file': 'route_pairs_file', 'algorithm': 'routing_algo', 'metrics': 'metrics'}),
    'configs::routing::RawRoutingAlgo': (True, {'Dijkstra': 'Dijkstra', 'CHDijkstra': 'CHDijkstra', 'Explorator': 'Explorator'}),
    'configs::routing::RawExploratorAlgo': (True, {'Dijkstra': 'Dijkstra', 'CHDijkstra': 'CHDijkstra'}),
    'configs::routing::RawEntry': (True, {'id': 'id', 'alpha': 'alpha', 'tolerated-scale': 'tolerated_scale'}),
    'configs::writing::network::edges::WrappedRawConfig': (False, {'writing': 'writing'}),
    'configs::writing::network::edges::RawConfig': (False, {'edges-info': 'edges_info'}),
    'configs::writing::network::edges::RawContent': (True, {'file': 'file', 'with_shortcuts': 'is_writing_shortcuts', 'will_denormalize_metrics_by_mean': 'is_denormalizing', 'ids': 'ids'}),
    'configs::writing::network::edges::RawCategory': (True, {'id': 'Id', 'ignored': 'Ignored'}),
    'configs::writing::network::graph::WrappedRawConfig': (False, {'writing': 'writing'}),
    'configs::writing::network::graph::RawConfig': (False, {'graph': 'graph'}),
    'configs::writing::network::graph::RawContent': (True, {'map-file': 'map_file', 'nodes': 'nodes', 'edges': 'edges'}),
    'configs::writing::network::graph::raw_edges::Config': (True, {'with_shortcuts': 'is_writing_shortcuts', 'will_denormalize_metrics_by_mean': 'is_denormalizing', 'ids': 'ids'}),
    'configs::writing::network::graph::nodes::RawCategory': (True, {'id': 'Id', 'ignored': 'Ignored'}),
    'configs::writing::routing::WrappedRawConfig': (False, {'writing': 'writing'}),
    'configs::writing::routing::RawConfig': (False, {'route-pairs': 'route_pairs'}),
    'configs::writing::routing::RawContent': (None, {'file': 'file'}),
    'configs::writing::routing::RawCategory': (True, {'random_or_all': 'RandomOrAll'}),
    'multi_ch_constructor::configs::RawConfig': (False, {'multi-ch-constructor': 'multi_ch_constructor'}),
    'multi_ch_constructor::configs::RawContent': (True, {'fmi-graph': 'fmi_graph', 'contracted-graph': 'ch_fmi_graph', 'dimension': 'dim', 'minimum-cost': 'min_cost', 'cost-accuracy': 'cost_accuracy', 'contraction-ratio': 'contraction_ratio', 'number_of_threads': 'num_threads', 'is_printing_osm-ids': 'is_printing_osm_ids', 'is_using_external_edge-ids': 'is_using_external_edge_ids'}),
}
VISIT = re.compile(r"^<osmgraphing::.*::_::<impl serde::de::Deserialize<'de> for (osmgraphing::[\w:]+)>::deserialize::__FieldVisitor as serde::de::Visitor<'de>>::visit_str$")


def keys(C):
    fns = {}
    for f in C.P.fns.values():
        m = VISIT.match(f['path'])
        if m:
            fns[m.group(1)] = f
    for adt, (strict, table) in KEYS.items():
        full = 'osmgraphing::' + adt
        f = fns.get(full)
        a = C.P.adts.get(full)
        short = adt.replace('configs::', '', 1)
        if f is None or a is None:
            C.undec('keys:' + short, adt, 'not found')
            continue
        E = C.run(f['path'])
        if E is None:
            continue
        enum = len(a['variants']) > 1 or a['variants'][0]['name'] in table.values()
        names = [v['name'] for v in a['variants']] if enum else [x[0] for x in a['variants'][0]['fields']]

        def result(text):
            def g(t):
                if t.op == 'eq':
                    for p, q in (t.a, t.a[::-1]):
                        if p is mk('arg', 1) and q.op == 'c' and q.a[0] == 'str':
                            return B(q.a[1] == text)
                return t
            v = rebuild(E, E.ret, g)
            if v.op == 'agg' and v.a[2] in ('Ok', 'Err'):
                if v.a[2] == 'Err':
                    return 'error'
                y = v.a[4][0]
                if y.op == 'agg':
                    m = re.match(r'__field(\d+)$', y.a[2] or '')
                    if m:
                        return names[int(m.group(1))] if int(m.group(1)) < len(names) else '?'
                    return {'__ignore': 'ignored', '__other': 'other'}.get(y.a[2], '?')
            return '?'
        for k, fld_ in table.items():
            r = result(k)
            if fld_ not in names:
                # renamed in the code: some field has to take it
                C.decide('keys:%s:%s' % (short, k), r not in ('error', 'ignored', '?', 'other') or r == '?', adt, 'the key %s is accepted: %s' % (k, r), decidable=r != '?')
                continue
            C.decide('keys:%s:%s' % (short, k), r == fld_, adt, 'the documented key %s sets %s: %s' % (k, fld_, r), decidable=r != '?')
        r = result('something else')
        if strict is True:
            C.decide('keys:%s:unknown' % short, r == 'error', adt, 'an unknown key is an error: %s' % r, decidable=r != '?' and r != 'other')
        elif strict is False:
            C.decide('keys:%s:unknown' % short, r == 'ignored', adt, 'other configurations in the same file are ignored: %s' % r, decidable=r != '?' and r != 'other')


def routing_proto(C):
    """weights and tolerances belong to the metric with the id of the entry"""
    w = 'osmgraphing::configs::routing::Config::try_from_proto'
    E = C.run(w)
    if E is None:
        return
    oks = [(c, x.a[4][0]) for c, x in leaves(E.ret) if variant_of(x) == 'Ok']
    for c, x in oks[:4]:
        if x.op != 'agg':
            C.undec('routing:config', w)
            continue
        d = dict(zip(x.a[3], x.a[4]))
        for name, part, init in (('alphas', 'alpha', 0.0), ('tolerated_scales', 'tolerated_scale', float('inf'))):
            v = d.get(name)
            if v is None or v.op != 'phi' or v not in E.phi_ops or E.phi_ops[v][1] is None:
                C.undec('routing:' + name, w, show(v, 4) if v is not None else '')
                continue
            i, n = E.phi_ops[v]
            i0 = E.index(i, mk('rng', 0, 99999, mk('inf'), ''))
            C.decide('routing:%s:start' % name, const_of(i0) == init, w, 'metrics that are not mentioned have %s %s: %s' % (part, init, show(i, 4)), decidable=const_of(i0) is not None)
            for c2, y in leaves(n, E.back_pc.get(loopkey(v), TRUE)):
                if y is v:
                    C.decide('routing:%s:each' % name, False, w, 'every entry sets its %s, but not if %s' % (part, show(c2, 5)), decidable=known(c2, ('call', 'vfld', 'rng', 'phi', 'is', 'more')))
                    continue
                if y.op != 'store' or y.a[0] is not v:
                    C.undec('routing:%s:step' % name, w, show(y, 5))
                    continue
                j, z = y.a[1], y.a[2]
                ent = {t.a[0] for t in subterms(z) if t.op == 'fld' and t.a[2] in ('alpha', 'tolerated_scale')}
                C.decide('routing:%s:value' % name, z.op == 'fld' and z.a[2] == part, w, 'the %s of an entry is stored: %s' % (part, show(z, 5)), decidable=known(z, ('rng', 'phi')))
                ids = {t for t in subterms(j) if t.op == 'fld' and t.a[2] == 'id'}
                el = z.a[0] if z.op == 'fld' else None
                C.decide('routing:%s:index' % name, any(t.a[0] is el for t in ids) if el is not None else False, w, 'it is stored at the metric with the id of the same entry: %s' % show(j, 5), decidable=el is not None and known(j, ('rng', 'phi', 'call', 'vfld', 'any', 'first', 'position', 'is')))


def p10(pid, tier):
    C = Check(pid, tier, 'every conversion between two stages of a configuration is evaluated: each setting is the part of the same name and each variant the one of the same name, unchanged, or the documented default if absent; the texts of keys are followed through the derived deserialisers to the fields they set')
    for f in sorted(C.P.fns.values(), key=lambda f: f['path']):
        m = CONV.match(f['path'])
        if not m or 'config' not in f['path']:
            continue
        dst, src = m.group(1), m.group(3)
        if not (src in C.P.adts and dst in C.P.adts):
            continue
        E = C.run(f['path'])
        if E is None:
            continue
        key = '%s<-%s' % (dst.replace('osmgraphing::', '').replace('configs::', ''), src.split('::')[-1])
        cv = Conv(C, E, f['path'], key, src, dst)
        for c, x in leaves(E.ret):
            if m.group(2):
                if variant_of(x) == 'Err':
                    continue
                if variant_of(x) != 'Ok':
                    C.undec(key, f['path'], show(x, 4))
                    continue
                x = x.a[4][0]
            cv.go(x, c, ())
    keys(C)
    routing_proto(C)
    return C.finish(min_ok=150)


CHECKS = {'P10': p10}
