W = "writing:\n  graph:\n    map-file: '{}/out.fmi'\n    nodes: [ { id: 'n' }, { id: 'la' } ]\n    edges:\n      ids: [ { id: 's' }, { id: 'd' }, { id: 'm' } ]\n".replace('{ ', '{{ ').replace(' }', ' }}')

seed('s01', 'P01', [('src/io/writing/network/graph/fmi.rs', '''            .write(true)
            .create_new(true)
            .open(&writing_cfg.map_file)?;''', '''            .write(true)
            .create(true)
            .truncate(true)
            .open(&writing_cfg.map_file)?;''')], '''
fn main() {
    let w = work();
    let wy = format!("%s", w);
    let (y, g) = simple(&w, "g", 3, &[(0, 1, 5.0), (1, 2, 6.0)], &wy);
    let g = g.unwrap();
    let out = format!("{}/out.fmi", w);
    std::fs::write(&out, "precious").unwrap();
    let wc = configs::writing::network::graph::Config::try_from_yaml(&y).unwrap();
    let r = io::network::graph::Writer::write(&g, &wc);
    expect("existing file is refused", || r.is_err() && std::fs::read_to_string(&out).unwrap() == "precious");
}''' % W, 'an output file that already exists', 'writing a graph over an existing file truncates it instead of failing')

seed('s02', 'P02', [('src/io/writing/routing/random_or_all.rs', '''        writeln!(writer, "{}", found_route_pairs.len())?;
        writeln!(writer, "")?;
''', '''        writeln!(writer, "{}", found_route_pairs.len())?;
        writeln!(writer, "")?;

        // nothing to write
        if found_route_pairs.is_empty() {
            return Ok(());
        }
''')], '''
fn main() {
    let w = work();
    let wy = format!("routing:\\n  algorithm: 'Dijkstra'\\n  metrics: [ {{ id: 'm' }} ]\\nwriting:\\n  route-pairs:\\n    file: '{}/out.route-pairs'\\n    random_or_all: {{ seed: 42, max_count: 0 }}\\n", w);
    let (y, g) = (format!("{}/g.yaml", w), ());
    if std::env::var("STAGE").is_err() {
        // two connected nodes
        simple(&w, "g", 2, &[(0, 1, 5.0), (1, 0, 5.0)], &wy).1.map(|_| ()).ok();
        return;
    }
    let g = try_parse(&y).unwrap();
    let rc = configs::routing::Config::try_from_yaml(&y, g.cfg()).unwrap();
    let wc = configs::writing::routing::Config::try_from_yaml(&y).unwrap();
    let r = io::routing::Writer::write(&g, &rc, &wc);
    expect("a full disk is reported", || r.is_err());
}''', 'no route is requested or found and the disk is full when the buffer is written', 'the writer returns Ok although nothing reached the file',
     pre='"$D/vpdemo" "$D/work" || exit 4\ntrap "" XFSZ; export STAGE=2; exec >/dev/null 2>&1; ulimit -f 0')

seed('s03', 'P03', [('src/io/writing/network/mod.rs', '''                                if let Some(mean) = graph.metrics().mean(metric_idx) {
                                    metric_value *= mean;''', '''                                let mean_idx = MetricIdx(*metric_idx.min(MetricIdx(i)));
                                if let Some(mean) = graph.metrics().mean(mean_idx) {
                                    metric_value *= mean;''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "2\\n2\\n2\\n0 48 9\\n1 48.1 9.1\\n0 1 100 3\\n1 0 300 5\\n").unwrap();
    let e = format!("{}    - metric: {{ unit: 'Seconds', id: 't' }}\\n    will_normalize_metrics_by_mean: true\\n", EDGES);
    let y = config(&w, "g", NODES, &e, &format!("writing:\\n  edges-info:\\n    file: '{}/out.csv'\\n    will_denormalize_metrics_by_mean: true\\n    ids: [ {{ id: 't' }}, {{ id: 's' }} ]\\n", w));
    let g = try_parse(&y).unwrap();
    let wc = configs::writing::network::edges::Config::try_from_yaml(&y).unwrap();
    io::network::edges::Writer::write(&g, &wc).unwrap();
    let l = lines(&format!("{}/out.csv", w));
    println!("{:?}", l);
    expect("denormalised with the mean of the metric", || l.iter().any(|x| x.starts_with("3 0")) && l.iter().any(|x| x.starts_with("5 1")));
}''', 'a normalised graph with several metrics, denormalising, and a metric column placed before the position of its metric', 'the metric is multiplied by another metric\'s mean')

seed('s04', 'P04', [('src/io/writing/network/graph/fmi.rs', '''                .filter(|&edge_idx| !fwd_edges.is_shortcut(edge_idx)
                    || writing_cfg.edges.is_writing_shortcuts)
                .count()''', '''                .filter(|&edge_idx| !fwd_edges.is_shortcut(edge_idx)
                    || writing_cfg.edges.ids.len() > 0)
                .count()''')], '''
fn main() {
    let w = work();
    std::fs::write(format!("{}/g.fmi", w), "1\\n3\\n3\\n0 48 9\\n1 48.1 9.1\\n2 48.2 9.2\\n0 1 100 -1 -1\\n1 2 300 -1 -1\\n0 2 400 0 1\\n").unwrap();
    let e = format!("{}    - meta: {{ info: 'ShortcutIdx0', id: 'x' }}\\n    - meta: {{ info: 'ShortcutIdx1', id: 'y' }}\\n", EDGES);
    let y = config(&w, "g", NODES, &e, &format!("writing:\\n  graph:\\n    map-file: '{}/out.fmi'\\n    nodes: [ {{ id: 'n' }} ]\\n    edges:\\n      with_shortcuts: false\\n      ids: [ {{ id: 's' }}, {{ id: 'd' }} ]\\n", w));
    let g = try_parse(&y).unwrap();
    let wc = configs::writing::network::graph::Config::try_from_yaml(&y).unwrap();
    io::network::graph::Writer::write(&g, &wc).unwrap();
    let l = lines(&format!("{}/out.fmi", w));
    println!("{:?}", l);
    expect("announced edge-count is the number of edge-rows", || l[2].parse::<usize>().unwrap() == l.len() - 3 - 3);
}''', 'a graph with shortcuts that are not to be written', 'the announced edge count includes shortcuts that are not written')
