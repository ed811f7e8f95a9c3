RT = "routing:\\n  algorithm: '%s'\\n  metrics: [ { id: 'm' } ]\\n"

seed('s05', 'P05', [('src/io/parsing/network/graph/fmi.rs', '''                    edges::MetaInfo::ShortcutIdx0 => {
                        if param != defaults::parsing::NO_SHORTCUT_IDX {
                            let sc_edge_idx = {
                                param.parse::<usize>().ok().ok_or(format!(
                                    "Parsing {:?} '{}' of edge-param #{} didn't work.",
                                    category, param, param_idx
                                ))?
                            };

''', '''                    edges::MetaInfo::ShortcutIdx0 => {
                        // everything besides an index means that there is no shortcut
                        if let Ok(sc_edge_idx) = param.parse::<usize>() {
''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "2\\n2\\n0 48 9\\n1 48.1 9.1\\n0 1 100 -1 -1\\n1 0 100 -1 -1\\n").unwrap();
    std::fs::write(format!("{}/h.fmi", w), "2\\n2\\n0 48 9\\n1 48.1 9.1\\n0 1 100 -1 -1\\n1 0 100 1O -1\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'ShortcutIdx0', id: 'a' }}\\n    - meta: {{ info: 'ShortcutIdx1', id: 'b' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    let z = config(&w, "h", NODES, &e, "");
    expect("unreadable columns are refused", || try_parse(&y).is_ok() && try_parse(&z).is_err());
}''', 'an unreadable first shortcut column in a row without second one', 'unreadable columns are taken for no shortcut')

seed('s13', 'P13', [('src/network/graph/mod.rs', '''            Ok(idx) => {
                let (_edge_id, edge_idx) = self.edge_ids_to_idx_map[idx];
                Ok(edge_idx)
            }''', '''            Ok(idx) => Ok(EdgeIdx(idx)),''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "2\\n2\\n0 48 9\\n1 48.1 9.1\\n0 1 100 7\\n1 0 50 3\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'EdgeId', id: 'e' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    let g = try_parse(&y).unwrap();
    let f = g.fwd_edges();
    for e in f.iter() { expect("edges are found by id", || f.try_idx_from(f.id(e)).unwrap() == e); }
}''', 'edge-ids whose order differs from the order of the edges in the graph', 'looking up the id of an edge delivers another edge')

seed('s14', 'P14', [('src/network/graph/mod.rs', '''        self.offset_indices(idx)
            .map(move |edge_idx| self.half_edge(edge_idx))
''', '''        self.offset_indices(idx)
            .map(move |edge_idx| self.half_edge(edge_idx))
            // loops are never part of a path
            .filter(move |half_edge| half_edge.dst_idx() != idx)
''')], '''
fn main() {
    let w = work();
    let (_, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 0, 6.0), (1, 1, 7.0), (1, 2, 8.0)], "");
    let g = g.unwrap();
    let (f, b) = (g.fwd_edges(), g.bwd_edges());
    expect("all leaving edges", || f.starting_from(NodeIdx(1)).count() == 3);
    expect("all entering edges", || b.starting_from(NodeIdx(1)).count() == 2);
}''', 'edges from a node to itself', 'some leaving and entering edges are not delivered')

seed('s15', 'P15', [('src/network/graph/building.rs', '''                    is_eq &= e0.id == e1.id;
''', '')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "2\\n3\\n0 48 9\\n1 48.1 9.1\\n0 1 100 7\\n0 1 100 8\\n1 0 50 9\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'EdgeId', id: 'e' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    let g = try_parse(&y).unwrap();
    expect("edges of different ids are kept", || g.fwd_edges().count() == 3);
}''', 'parallel edges with equal metrics, which differ only in their ids', 'edges are removed although their ids differ')

seed('s16', 'P16', [('src/network/graph/building.rs', '''                                    if old_id == &from.id {
                                        *old_unit = to.unit.into();
                                        *old_id = to.id.clone();
                                    }''', '''                                    if old_id == &from.id {
                                        *old_id = to.id.clone();
                                    }''')], '''
fn main() {
    let w = work();
    let gen = "  generating:\\n    nodes: []\\n    edges:\\n    - convert:\\n        from: { unit: 'Meters', id: 'm' }\\n        to: { unit: 'Kilometers', id: 'k' }\\n";
    let (_, g) = simple(&w, "g", 2, &[(0, 1, 5.0), (1, 0, 6.0)], gen);
    let g = g.unwrap();
    let c = format!("{:?}", g.cfg().edges.categories);
    expect("unit is converted as well", || c.contains("Kilometers") && !c.contains("unit: Meters"));
}''', 'a conversion of a metric, and reading the unit of its column afterwards', 'the column keeps its old unit although its values are converted')

seed('s17', 'P17', [('src/network/graph/building.rs', '''                return Err(err::Msg::from(
                    "The graph contains multiple edges of same id.",
                ));
''', '''                info!("The graph contains multiple edges of same id.");
''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "2\\n3\\n0 48 9\\n1 48.1 9.1\\n0 1 100 7\\n1 0 100 8\\n0 1 50 7\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'EdgeId', id: 'e' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    expect("duplicate ids are refused", || try_parse(&y).is_err());
}''', 'two different edges of the same id', 'all edges but one of them cannot be found by their id')

seed('s18', 'P18', [('src/network/graph/building.rs', '''            let n = graph.fwd_edges().count() as f64;
''', '''            let n = (n - graph.sc_edges.len()) as f64;
''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "3\\n3\\n0 48 9\\n1 48.1 9.1\\n2 48.2 9.2\\n0 1 100 -1 -1\\n1 2 300 -1 -1\\n0 2 400 0 1\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'ShortcutIdx0', id: 'a' }}\\n    - meta: {{ info: 'ShortcutIdx1', id: 'b' }}\\n    will_normalize_metrics_by_mean: true\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    let g = try_parse(&y).unwrap();
    let s: f64 = g.fwd_edges().iter().map(|e| g.metrics()[e][0]).sum();
    expect("mean of normalised metrics is one", || (s - 3.0).abs() < 1e-6);
}''', 'normalised metrics in a graph with shortcuts', 'metrics are divided by the wrong mean')

seed('s19', 'P19', [('src/routing/dijkstra.rs', '''        self.is_ch_dijkstra = match query.routing_cfg.routing_algo {''', '''        self.init_query(query.graph.nodes().count());
        self.is_ch_dijkstra = match query.routing_cfg.routing_algo {'''), ('src/routing/dijkstra.rs', '''        self.init_query(nodes.count());
''', '')], '''
fn main() {
    let w = work();
    // first on a small graph, then another algorithm on a bigger one
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 1.0), (1, 2, 1.0), (2, 0, 1.0)], "%s");
    let (z, h) = simple(&w, "h", 5, &[(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (3, 4, 1.0), (4, 0, 1.0)], "%s");
    let (g, h) = (g.unwrap(), h.unwrap());
    let mut old = dijkstra::Dijkstra::new();
    route(&mut old, &y, &g, 0, 2);
    let p = route(&mut old, &z, &h, 0, 3);
    let q = route(&mut dijkstra::Dijkstra::new(), &z, &h, 0, 3);
    expect("a used instance finds the same path", || p.is_some() && p == q);
}
''' % (RT % 'CHDijkstra', RT % 'Dijkstra'), 'two queries of different algorithms with one instance', 'marks of visited nodes are not reset when the algorithm changes')

seed('s20', 'P20', [('src/routing/dijkstra.rs', '''                    self.predecessors[dir][*leaving_edge.dst_idx()] = Some(leaving_edge.idx());
''', '''                    self.predecessors[dir][*leaving_edge.dst_idx()] = xwd_edges[dir]
                        .between(current.idx, leaving_edge.dst_idx())
                        .map(|edge| edge.idx());
''')], '''
fn main() {
    let w = work();
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 9.0), (0, 1, 5.0), (0, 1, 7.0), (1, 2, 3.0), (1, 2, 2.0), (1, 2, 4.0)], "%s");
    let g = g.unwrap();
    let p = route(&mut dijkstra::Dijkstra::new(), &y, &g, 0, 2).unwrap();
    let c: f64 = p.iter().map(|e| g.metrics()[e][0]).sum();
    expect("the path consists of the edges that were found", || (c - 7.0).abs() < 1e-6);
}
''' % (RT % 'Dijkstra'), 'several edges between two nodes', 'the path contains another edge than the one that was relaxed')

seed('s21', 'P21', [('src/routing/dijkstra.rs', '''                if new_cost < self.costs[dir][*leaving_edge.dst_idx()] {''', '''                if Approx(new_cost) < Approx(self.costs[dir][*leaving_edge.dst_idx()]) {'''), ('src/routing/dijkstra.rs', '''use crate::{
''', '''use crate::approximating::Approx;
use crate::{
''')], '''
fn main() {
    let w = work();
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 10.0), (0, 1, 3.0), (1, 2, 3.0), (1, 2, 10.0), (2, 0, 1.0)], "routing:\\n  algorithm: 'Dijkstra'\\n  metrics: [ { id: 'm', alpha: 0.00000001 } ]\\n");
    let g = g.unwrap();
    for (s, d, b) in [(0, 1, 3.0), (1, 2, 3.0), (0, 2, 6.0)].iter() {
        let p = route(&mut dijkstra::Dijkstra::new(), &y, &g, *s, *d).unwrap();
        let c: f64 = p.iter().map(|e| g.metrics()[e][0]).sum();
        expect("the path is the best one", || (c - b).abs() < 1e-6);
    }
}
''', 'weights so small that costs differ by less than the accuracy', 'improvements below the accuracy are lost, the path is not the best one')

seed('s22', 'P22', [('src/routing/dijkstra.rs', '''                if new_cost < self.costs[dir][*leaving_edge.dst_idx()] {''', '''                if new_cost <= self.costs[dir][*leaving_edge.dst_idx()] {''')], '''
fn main() {
    let w = work();
    // no path from 0 to 2, but a cycle between 0 and 1, and a weight of zero
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 0, 6.0), (2, 0, 7.0)], "routing:\\n  algorithm: 'Dijkstra'\\n  metrics: [ { id: 'm', alpha: 0.0 } ]\\n");
    let g = g.unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { tx.send(route(&mut dijkstra::Dijkstra::new(), &y, &g, 0, 2).is_none()).ok(); });
    let r = rx.recv_timeout(std::time::Duration::from_secs(5));
    println!("search {}", if r == Ok(true) { "ok" } else { "FAILS" });
    std::process::exit(if r == Ok(true) { 0 } else { 1 });
}''', 'a weight of zero, a cycle of edges, and a destination that cannot be reached', 'the search never ends')

seed('s23', 'P23', [('src/routing/paths.rs', '''            costs: Some(smallvec![0.0; graph.metrics().dim()]),
''', '''            // calculated costs can be kept
            costs: self
                .costs
                .clone()
                .or_else(|| Some(smallvec![0.0; graph.metrics().dim()])),
''')], '''
fn main() {
    let w = work();
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 2, 6.0)], "%s");
    let g = g.unwrap();
    let mut p = route(&mut dijkstra::Dijkstra::new(), &y, &g, 0, 2).unwrap();
    p.calc_costs(&g);
    let p = p.flatten(&g);
    expect("costs are those of the edges", || (p.costs()[0] - 11.0).abs() < 1e-9);
}''' % (RT % 'Dijkstra'), 'costs of a path that are calculated before the path is unpacked', 'the costs of the unpacked path are doubled')
