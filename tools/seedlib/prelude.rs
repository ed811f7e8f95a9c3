use osmgraphing::{configs, io, network::{Graph, NodeIdx, EdgeIdx}, routing::{dijkstra, paths::Path}};

/// writes an fmi-file and its config; `nodes`/`edges`: yaml of the parsed columns, `extra`: further yaml
pub fn config(work: &str, name: &str, nodes: &str, edges: &str, extra: &str) -> String {
    let y = format!("{}/{}.yaml", work, name);
    std::fs::write(&y, format!("parsing:\n  map-file: '{w}/{n}.fmi'\n  vehicles: {{ category: 'Car', are_drivers_picky: false }}\n  nodes:\n{nodes}  edges:\n    data:\n{edges}{extra}", w = work, n = name, nodes = nodes, edges = edges, extra = extra)).unwrap();
    y
}

pub fn try_parse(yaml: &str) -> Result<Graph, String> {
    let cfg = configs::parsing::Config::try_from_yaml(&yaml).map_err(|e| format!("{}", e))?;
    io::network::graph::Parser::parse_and_finalize(cfg).map_err(|e| format!("{}", e))
}

pub const NODES: &str = "  - meta: { info: 'NodeId', id: 'n' }\n  - metric: { unit: 'Latitude', id: 'la' }\n  - metric: { unit: 'Longitude', id: 'lo' }\n";
pub const EDGES: &str = "    - meta: { info: 'SrcId', id: 's' }\n    - meta: { info: 'DstId', id: 'd' }\n    - metric: { unit: 'Meters', id: 'm' }\n";
pub const ROUTING: &str = "routing:\n  algorithm: 'Dijkstra'\n  metrics: [ { id: 'm' } ]\n";

/// graph with nodes 10*i at (48+i/100, 9+i/50) and edges (src, dst, meters)
pub fn simple(work: &str, name: &str, n: usize, edges: &[(usize, usize, f64)], extra: &str) -> (String, Result<Graph, String>) {
    let mut s = format!("1\n{}\n{}\n", n, edges.len());
    for i in 0..n { s += &format!("{} {} {}\n", 10 * i, 48.0 + i as f64 / 100.0, 9.0 + i as f64 / 50.0); }
    for (a, b, m) in edges { s += &format!("{} {} {}\n", 10 * a, 10 * b, m); }
    std::fs::write(format!("{}/{}.fmi", work, name), s).unwrap();
    let y = config(work, name, NODES, EDGES, extra);
    let g = try_parse(&y);
    (y, g)
}

pub fn route(d: &mut dijkstra::Dijkstra, yaml: &str, g: &Graph, a: usize, b: usize) -> Option<Path> {
    let rc = configs::routing::Config::try_from_yaml(&yaml, g.cfg()).unwrap();
    d.compute_best_path(dijkstra::Query { src_idx: NodeIdx(a), dst_idx: NodeIdx(b), graph: g, routing_cfg: &rc })
}

pub fn work() -> String { std::env::args().nth(1).unwrap() }

/// exit code 1 unless the check holds
pub fn expect(name: &str, f: impl FnOnce() -> bool) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    if !matches!(r, Ok(true)) { println!("{} FAILS", name); std::process::exit(1); }
    println!("{} ok", name);
}
pub fn lines(f: &str) -> Vec<String> {
    std::fs::read_to_string(f).unwrap().lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| l.to_string()).collect()
}
