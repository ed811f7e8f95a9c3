OSM = 'osmpbfreader = "0.13"\\n'

seed('s06', 'P06', [('src/io/parsing/network/edges.rs', '''            .map(Result::unwrap)
            .filter(helpers::is_line_functional);''', '''            .filter_map(Result::ok)
            .filter(helpers::is_line_functional);''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/v.csv", w), b"0 7\\n1 \\xff8\\n").unwrap();
    let r = std::panic::catch_unwind(|| io::network::edges::Parser::new_reader(&format!("{}/v.csv", w), false).unwrap().count());
    expect("an unreadable row is not skipped", || r.is_err());
    std::fs::write(format!("{}/u.csv", w), b"0 7\\n\\n# x\\n1 8\\n").unwrap();
    expect("readable rows are read", || io::network::edges::Parser::new_reader(&format!("{}/u.csv", w), true).unwrap().count() == 1);
}''', 'a row that cannot be read in a file of external edge values', 'rows that cannot be read are silently skipped')

seed('s07', 'P07', [('src/bin/osmgraphing/mod.rs', '''            return Err(err::Msg::from(format!(
                "New map-file {} does already exist. Please remove it.",
                writing_cfg.map_file.display()
            )));
        }

        // writing to file
        io::network::graph::Writer::write(&graph, &writing_cfg)?;''', '''            warn!(
                "New map-file {} does already exist. Please remove it.",
                writing_cfg.map_file.display()
            );
        } else {
            // writing to file
            io::network::graph::Writer::write(&graph, &writing_cfg)?;
        }''')], '', 'a file that exists already at the place of the graph', 'a run that did not write the graph ends successfully', sh='''#!/bin/bash
. /opt/vp/env.sh
REPO=$(pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
$CARGO build --offline -q --bin osmgraphing >"$D/log" 2>&1 || { tail -20 "$D/log"; exit 3; }
T=${CARGO_TARGET_DIR:-$REPO/target}
printf '1\\n2\\n1\\n0 48 9\\n1 48.1 9.1\\n0 1 100\\n' > "$D/g.fmi"
cat > "$D/c.yaml" <<Y
parsing:
  map-file: '$D/g.fmi'
  vehicles: { category: 'Car', are_drivers_picky: false }
  nodes:
  - meta: { info: 'NodeId', id: 'n' }
  - metric: { unit: 'Latitude', id: 'la' }
  - metric: { unit: 'Longitude', id: 'lo' }
  edges:
    data:
    - meta: { info: 'SrcId', id: 's' }
    - meta: { info: 'DstId', id: 'd' }
    - metric: { unit: 'Meters', id: 'm' }
writing:
  graph:
    map-file: '$D/out.fmi'
    nodes: [ id: 'n', id: 'la', id: 'lo' ]
    edges: { ids: [ id: 's', id: 'd', id: 'm' ] }
Y
cd "$REPO"
"$T/debug/osmgraphing" --config "$D/c.yaml" --log WARN --writing_graph >"$D/o1" 2>&1 || { tail -5 "$D/o1"; echo "first run fails"; exit 1; }
"$T/debug/osmgraphing" --config "$D/c.yaml" --log WARN --writing_graph >"$D/o2" 2>&1 && { echo "second run writes nothing, but succeeds"; exit 1; }
echo ok
''')

seed('s08', 'P08', [('src/configs/parsing/generating/edges/metrics.rs', '''            UnitInfo::Hours => match to {
                UnitInfo::Meters => None,
                UnitInfo::Kilometers => None,
                UnitInfo::Seconds => Some(*Seconds::from(Hours(raw_value))),''', '''            UnitInfo::Hours => match to {
                UnitInfo::Meters => None,
                UnitInfo::Kilometers => None,
                UnitInfo::Seconds => Some(*Seconds::from(Minutes(raw_value))),''')], '''
use osmgraphing::configs::parsing::generating::edges::metrics::UnitInfo;
fn main() {
    expect("hours to seconds", || (UnitInfo::Hours.try_convert(&UnitInfo::Seconds, 2.0).unwrap() - 7200.0).abs() < 0.01);
    expect("minutes to seconds", || (UnitInfo::Minutes.try_convert(&UnitInfo::Seconds, 2.0).unwrap() - 120.0).abs() < 0.01);
}''', 'converting hours to seconds', 'hours are taken for minutes')

seed('s09', 'P09', [('src/configs/parsing/generating/edges/metrics.rs', '''                    Some(*KilometersPerHour::from(Kilometers(raw_a) / Hours(raw_b)))''', '''                    // speed has no conversion of its own
                    Some(*Kilometers(raw_a) / *Minutes::from(Hours(raw_b)))''')], '''
use osmgraphing::configs::parsing::generating::edges::metrics::UnitInfo;
fn main() {
    expect("speed", || (UnitInfo::KilometersPerHour.try_calc(&UnitInfo::Kilometers, 100.0, &UnitInfo::Hours, 2.0).unwrap() - 50.0).abs() < 0.01);
}''', 'calculating a speed from length and duration', 'the speed is given in kilometers per minute')

seed('s10', 'P10', [('src/configs/routing.rs', '''            alphas[*metric_idx] = entry.alpha;
            tolerated_scales[*metric_idx] = entry.tolerated_scale;''', '''            // metrics without weight do not take part
            if entry.alpha > 0.0 {
                alphas[*metric_idx] = entry.alpha;
                tolerated_scales[*metric_idx] = entry.tolerated_scale;
            }''')], '''
fn main() {
    let w = work();
    let (y, g) = simple(&w, "g", 2, &[(0, 1, 5.0)], "");
    let g = g.unwrap();
    std::fs::write(&y, "routing:\\n  algorithm: 'Dijkstra'\\n  metrics: [ { id: 'm', alpha: 0, tolerated-scale: 1.5 } ]\\n").unwrap();
    let c = configs::routing::Config::try_from_yaml(&y, g.cfg()).unwrap();
    expect("the tolerated scale is the configured one", || c.tolerated_scales[0] == 1.5 && c.alphas[0] == 0.0);
}''', 'a metric with weight 0 and a tolerated scale', 'the tolerated scale of a metric without weight is ignored')

seed('s11', 'P11', [('src/defaults.rs', '''                    KilometersPerHour(max(defaults::speed::MIN_KMH.into(), maxspeed) as f64)''', '''                    // too small values are invalid
                    if maxspeed < defaults::speed::MIN_KMH.into() {
                        self.maxspeed()
                    } else {
                        KilometersPerHour(maxspeed as f64)
                    }''')], '''
use osmpbfreader::{Way, WayId, Tags};
use osmgraphing::network::StreetCategory;
fn main() {
    let mut t = Tags::new();
    t.insert("maxspeed".into(), "3".into());
    let way = Way { id: WayId(1), tags: t, nodes: vec![] };
    expect("slow streets", || *StreetCategory::Motorway.parse_maxspeed(&way) == 5.0);
}''', 'a speed-limit below 5 km/h', 'slow streets get the default speed of their type', deps=OSM)

seed('s12', 'P12', [('src/io/parsing/network/graph/pbf.rs', '''            if !highway_tag.is_for(
                &builder.cfg().vehicles.category,
                builder.cfg().vehicles.are_drivers_picky,
            ) {''', '''            // pickiness is a matter of cars
            let is_driver_picky = match builder.cfg().vehicles.category {
                crate::network::vehicles::Category::Car => {
                    builder.cfg().vehicles.are_drivers_picky
                }
                _ => false,
            };
            if !highway_tag.is_for(&builder.cfg().vehicles.category, is_driver_picky) {''')], '''
use osmpbfreader::{OsmPbfReader, OsmObj};
use osmgraphing::network::{StreetCategory, vehicles::Category};
fn main() {
    let w = work();
    let map = format!("{}/resources/isle_of_man_2020-03-14/graph.osm.pbf", std::env::current_dir().unwrap().display());
    let mut want = 0;
    for o in OsmPbfReader::new(std::fs::File::open(&map).unwrap()).iter() {
        if let Ok(OsmObj::Way(way)) = o {
            if let Some(s) = StreetCategory::from(&way) {
                if s.is_for(&Category::Bicycle, true) && way.nodes.len() > 1 { want += (way.nodes.len() - 1) * if s.parse_oneway(&way).0 { 1 } else { 2 }; }
            }
        }
    }
    let y = format!("{}/p.yaml", w);
    std::fs::write(&y, format!("parsing:\\n  map-file: '{}'\\n  vehicles: {{ category: 'Bicycle', are_drivers_picky: true }}\\n  nodes:\\n{}  edges:\\n    data:\\n    - meta: {{ info: 'SrcId', id: 's' }}\\n    - meta: {{ info: 'DstId', id: 'd' }}\\n    - metric: {{ unit: 'KilometersPerHour', id: 'v' }}\\n", map, NODES)).unwrap();
    let got = try_parse(&y).unwrap().fwd_edges().count();
    println!("{} edges of {}", got, want);
    // duplicates may be removed
    expect("usable ways only", || got <= want && got + 200 > want);
}''', 'picky drivers of bicycles', 'ways which picky drivers of bicycles do not use become part of the graph', deps=OSM)

seed('s24', 'P24', [('src/io/writing/routing/random_or_all.rs', '''                let is_already_processed = !processed_indices.insert((src_idx, dst_idx));''', '''                // whether there is a route does not depend on the direction
                let is_already_processed =
                    !processed_indices.insert((min(src_idx, dst_idx), src_idx.max(dst_idx)));''')], '''
use osmgraphing::configs::writing;
fn main() {
    let w = work();
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 0, 6.0), (2, 0, 3.0)], "");
    let g = g.unwrap();
    std::fs::write(&y, format!("routing:\\n  algorithm: 'Dijkstra'\\n  metrics: [ {{ id: 'm' }} ]\\nwriting:\\n  route-pairs:\\n    file: '{}/out.route-pairs'\\n    random_or_all: {{ seed: 42, max_count: 9 }}\\n", w)).unwrap();
    let rc = configs::routing::Config::try_from_yaml(&y, g.cfg()).unwrap();
    let c = writing::routing::Config::try_from_yaml(&y).unwrap();
    io::routing::Writer::write(&g, &rc, &c).unwrap();
    let l = lines(&format!("{}/out.route-pairs", w));
    println!("{:?}", l);
    expect("all existing routes", || l == vec!["4", "0 10 1", "10 0 1", "20 0 1", "20 10 1"]);
}''', 'requesting all routes of a graph with routes in both directions between two nodes', 'only one direction of a pair is written')

seed('s27', 'P27', [('src/multi_ch_constructor/mod.rs', '''        "--threads",
        &format!("{}", mchc_cfg.num_threads),
        if mchc_cfg.is_printing_osm_ids {''', '''        "--threads",
        // one thread is needed for coordination
        &format!("{}", std::cmp::max(2, mchc_cfg.num_threads)),
        if mchc_cfg.is_printing_osm_ids {''')], '''
use osmgraphing::multi_ch_constructor as m;
fn main() {
    let w = work();
    std::env::set_current_dir(&w).unwrap();
    std::fs::create_dir_all("externals/multi-ch-constructor/build").unwrap();
    let p = "externals/multi-ch-constructor/build/multi-ch";
    std::fs::write(p, "#!/bin/sh\\necho \\"$@\\" > args\\n").unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
    let c = |n: usize| m::Config { fmi_graph: "a.fmi".into(), ch_fmi_graph: "b.fmi".into(), contraction_ratio: "99".into(), dim: 1, cost_accuracy: 0.1, num_threads: n, is_printing_osm_ids: false, is_using_external_edge_ids: false };
    for n in &[4, 1] {
        m::construct_ch_graph(&c(*n)).unwrap();
        let a = std::fs::read_to_string("args").unwrap();
        expect("number of threads", || a.contains(&format!("--threads {} ", n)));
    }
}''', 'a configuration with one thread', 'the contraction runs with more threads than configured')

seed('s28', 'P28', [('src/network/routes.rs', '''            dst: nodes.idx_from(self.dst).expect(&format!(
                "RoutePair<i64> contains dst-id {}, which is not part of the graph.",
                self.dst
            )),''', '''            // routes leaving the graph end at the last node
            dst: nodes
                .idx_from(self.dst)
                .unwrap_or_else(|_| NodeIdx(nodes.count() - 1)),''')], '''
use osmgraphing::network::RoutePair;
fn main() {
    let w = work();
    let (_, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 0, 6.0), (2, 0, 3.0)], "");
    let g = g.unwrap();
    let p = RoutePair { src: 0, dst: 10 }.into_idx(&g);
    expect("existing nodes", || p.src == NodeIdx(0) && p.dst == NodeIdx(1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { RoutePair { src: 0, dst: 15 }.into_idx(&g); }));
    expect("missing nodes are refused", || r.is_err());
}''', 'a route-pair whose destination is no node of the graph', 'missing destinations are replaced by another node')

seed('s29', 'P29', [('src/approximating.rs', '''        Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS''', '''        // large values are less accurate
        let scale = self.0.abs().max(other.0.abs()).max(1_000.0) / 1_000.0;
        Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS * scale''')], '''
use osmgraphing::approximating::Approx;
fn main() {
    expect("small values", || Approx(1.0) != Approx(1.00001) && Approx(1.0) == Approx(1.0000001));
    expect("large values", || Approx(1_000_000.0) != Approx(1_000_000.0005) && Approx(1_000_000.0) < Approx(1_000_000.0005));
}''', 'values above 1000 that differ by a little more than the accuracy', 'the accuracy grows with the values')

seed('s30', 'P30', [('src/io/writing/network/edges.rs', '''        for edge_idx in fwd_edges.iter().filter(|&edge_idx| {
            writing_cfg.is_writing_shortcuts || !fwd_edges.is_shortcut(edge_idx)
        }) {
            writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
        }''', '''        for (edge_idx, value) in fwd_edges
            .iter()
            .filter(|&edge_idx| {
                writing_cfg.is_writing_shortcuts || !fwd_edges.is_shortcut(edge_idx)
            })
            .zip(values)
        {
            writeln!(writer, "{} {}", fwd_edges.id(edge_idx), value)?;
        }''')], '''
use osmgraphing::configs::writing;
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "3\\n4\\n0 48 9\\n1 48.1 9.1\\n2 48.2 9.2\\n0 1 10 -1 -1 5\\n0 2 20 0 2 6\\n1 2 10 -1 -1 8\\n2 0 7 -1 -1 4\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'ShortcutIdx0', id: 'a' }}\\n    - meta: {{ info: 'ShortcutIdx1', id: 'b' }}\\n    - meta: {{ info: 'EdgeId', id: 'e' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, "");
    let g = try_parse(&y).unwrap();
    let f = g.fwd_edges();
    let v: Vec<usize> = (0..f.count()).map(|i| 100 + i).collect();
    std::fs::write(&y, format!("writing:\\n  edges-info:\\n    file: '{}/o.csv'\\n    with_shortcuts: false\\n    ids: [ id: 'x', id: 'y' ]\\n", w)).unwrap();
    let mut c = writing::network::edges::Config::try_from_yaml(&y).unwrap();
    c.is_writing_header = false;
    io::network::edges::Writer::write_external_values(&v, &g, &c).unwrap();
    let want: Vec<String> = f.iter().filter(|&i| !f.is_shortcut(i)).map(|i| format!("{} {}", f.id(i), v[*i])).collect();
    println!("{:?}", want);
    expect("every edge has its own value", || want.len() == 3 && lines(&format!("{}/o.csv", w)) == want);
}''', 'a graph with shortcuts, which are not written', 'edges after a shortcut get the value of another edge')

seed('s31', 'P31', [('src/io/parsing/network/graph/mod.rs', '''                    generating::edges::Category::Copy { from: _, to: _ } => 1,''', '''                    generating::edges::Category::Copy { from: _, to: _ } => 0,''')], '''
use osmgraphing::defaults::capacity::SMALL_VEC_INLINE_SIZE as N;
fn main() {
    let w = work();
    for n in vec![N - 1, N] {
        let mut s = String::from("  generating:\\n    nodes: []\\n    edges:\\n");
        for i in 0..n { s += &format!("    - copy: {{ from: {{ unit: 'Meters', id: 'm' }}, to: {{ unit: 'Meters', id: 'c{}' }} }}\\n", i); }
        let r = simple(&w, &format!("g{}", n), 2, &[(0, 1, 5.0)], &s).1;
        println!("{:?}", r.as_ref().err());
        expect("at most the compiled number of metrics", || r.is_ok() == (n < N));
    }
}''', 'more metrics than compiled for, because of copied ones', 'copied metrics do not count to the capacity')
