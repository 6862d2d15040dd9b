PRE = r'''
#![allow(dead_code, unused_imports)]
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::{EdgeIdx, Graph, GraphBuilder, NodeIdx, ProtoEdge, ProtoNode, ProtoShortcut},
    routing::{dijkstra, dijkstra::Dijkstra, paths::Path},
};
use std::fs;

type PCfg = configs::parsing::Config;
type RCfg = configs::routing::Config;

/// src-id, dst-id, metrics, replaced edges
type E<'a> = (i64, i64, &'a [f64], Option<[usize; 2]>);

fn cfg_text(dim: usize, normalize: bool, gen: &str) -> String {
    let mut s = String::from("parsing:\n  map-file: net.fmi\n  nodes:\n");
    s += "  - meta: { info: NodeId, id: node-id }\n  - metric: { unit: Latitude, id: lat }\n  - metric: { unit: Longitude, id: lon }\n  - meta: { info: CHLevel, id: ch-level }\n";
    s += "  edges:\n";
    if normalize { s += "    will_normalize_metrics_by_mean: true\n"; }
    s += "    data:\n    - meta: { info: EdgeId, id: edge-id }\n    - meta: { info: SrcId, id: src-id }\n    - meta: { info: DstId, id: dst-id }\n    - meta: { info: ShortcutIdx0, id: sc-0 }\n    - meta: { info: ShortcutIdx1, id: sc-1 }\n";
    for i in 0..dim { s += &format!("    - metric: {{ unit: F64, id: m{} }}\n", i); }
    s + gen
}

fn cfg(dim: usize) -> PCfg { serde_yaml::from_str(&cfg_text(dim, false, "")).unwrap() }

fn build(cfg: PCfg, edges: &[E], nodes: &[(i64, usize)]) -> Result<Graph, String> {
    let mut eb = GraphBuilder::new(cfg);
    for (i, e) in edges.iter().enumerate() {
        eb.insert(ProtoShortcut {
            proto_edge: ProtoEdge { id: Some(i), src_id: e.0, dst_id: e.1, metrics: e.2.iter().copied().collect() },
            sc_edges: e.3.map(|x| [EdgeIdx(x[0]), EdgeIdx(x[1])]),
        }).map_err(|e| e.to_string())?;
    }
    finish(eb, nodes)
}

/// edges without ids
fn build_plain(cfg: PCfg, edges: &[E], nodes: &[(i64, usize)]) -> Result<Graph, String> {
    let mut eb = GraphBuilder::new(cfg);
    for e in edges {
        eb.insert(ProtoShortcut {
            proto_edge: ProtoEdge { id: None, src_id: e.0, dst_id: e.1, metrics: e.2.iter().copied().collect() },
            sc_edges: e.3.map(|x| [EdgeIdx(x[0]), EdgeIdx(x[1])]),
        }).map_err(|e| e.to_string())?;
    }
    finish(eb, nodes)
}

fn finish(eb: osmgraphing::network::EdgeBuilder, nodes: &[(i64, usize)]) -> Result<Graph, String> {
    let mut nb = eb.next();
    for &(id, level) in nodes {
        nb.insert(ProtoNode { id, coord: kissunits::geo::Coordinate { lat: 10.0 + id as f64, lon: 20.0 + id as f64 }, ch_level: Some(level) });
    }
    nb.next().map_err(|e| e.to_string())?.finalize().map_err(|e| e.to_string())
}

fn rcfg(algo: RoutingAlgo, alphas: &[f64]) -> RCfg {
    RCfg { route_pairs_file: None, routing_algo: algo, alphas: alphas.iter().copied().collect(), tolerated_scales: alphas.iter().map(|_| std::f64::INFINITY).collect() }
}

/// summed metrics of the best path
fn route(d: &mut Dijkstra, g: &Graph, r: &RCfg, s: i64, t: i64) -> Option<Vec<f64>> {
    let nodes = g.nodes();
    let q = dijkstra::Query { src_idx: nodes.idx_from(s).unwrap(), dst_idx: nodes.idx_from(t).unwrap(), graph: g, routing_cfg: r };
    d.compute_best_path(q).map(|mut p| p.calc_costs(g).to_vec())
}
'''
DJ = "src/routing/dijkstra.rs"
B = "src/network/graph/building.rs"

seed("C01-a", "C01", "several metrics, one of them weighted negatively",
 "negative weightings are refused only if the sum of the weights is negative, so a path is returned (or the search does not end) for mixed weights",
 [(DJ, """        for alpha in query.routing_cfg.alphas.iter() {
            // Dijkstra would not terminate with negative weights
            // -> no path found
            if alpha < &0.0 {
                return None;
            }
        }
""", """        // Dijkstra would not terminate with negative weights
        // -> no path found
        if query.routing_cfg.alphas.iter().sum::<f64>() < 0.0 {
            return None;
        }
""")],
 PRE + r"""
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0, 1.0], None), (2, 3, &[1.0, 1.0], None)];
    let g = build(cfg(2), &es, &[(1, 0), (2, 0), (3, 0)]).unwrap();
    let got = route(&mut Dijkstra::new(), &g, &rcfg(RoutingAlgo::Dijkstra, &[2.0, -1.0]), 1, 3);
    println!("{:?}", got);
    std::process::exit(got.is_some() as i32);
}
""")

seed("C01-b", "C01", "a network of five metrics",
 "the weighted sum of five metrics ignores the fifth one, so the cheapest path is chosen by four metrics only",
 [("src/helpers/mod.rs", """    a.iter()
        .zip(b)
        .fold(0.0, |start, (aa, &bb)| start + aa * bb)""",
"""    // unrolled, because this is the hottest loop of routing
    if a.len() < 4 {
        return a
            .iter()
            .zip(b)
            .fold(0.0, |start, (aa, &bb)| start + aa * bb);
    }
    a.chunks_exact(4)
        .zip(b.chunks_exact(4))
        .fold(0.0, |start, (aa, bb)| {
            start + aa[0] * bb[0] + aa[1] * bb[1] + aa[2] * bb[2] + aa[3] * bb[3]
        })""")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0, 1.0, 1.0, 1.0, 9.0], None), (1, 2, &[2.0, 1.0, 1.0, 1.0, 1.0], None)];
    let g = build(cfg(5), &es, &[(1, 0), (2, 0)]).unwrap();
    let got = route(&mut Dijkstra::new(), &g, &rcfg(RoutingAlgo::Dijkstra, &[1.0; 5]), 1, 2).unwrap();
    println!("{:?}", got);
    std::process::exit((got[0] != 2.0) as i32);
}
''')

seed("C02-a", "C02", "a contracted network with more than 256 levels",
 "levels are kept in one byte and wrap around, so the CH-Dijkstra leaves out edges to nodes of higher levels",
 [(B, "                self.node_ch_levels[idx] = ch_level;", "                // levels are small, so save memory\n                self.node_ch_levels[idx] = usize::from(ch_level as u8);")],
 PRE + r"""
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[1.0], None)];
    let g = build(cfg(1), &es, &[(1, 100), (2, 256), (3, 101)]).unwrap();
    let got = route(&mut Dijkstra::new(), &g, &rcfg(RoutingAlgo::CHDijkstra, &[1.0]), 1, 3);
    println!("{:?}", got);
    std::process::exit((got != Some(vec![2.0])) as i32);
}
""")

seed("C03-a", "C03", "the same query in two networks of the same size, one after the other, on the same router",
 "the router remembers the last answer by node-count instead of by network, and gives it for another network",
 [(DJ, """    touched: [Vec<usize>; 2],
}""", """    touched: [Vec<usize>; 2],
    // the last answer, because a route is often asked for several times
    last: Option<(NodeIdx, NodeIdx, usize, Vec<f64>, bool, Option<Path>)>,
}"""), (DJ, """            touched: [vec![], vec![]],
        }""", """            touched: [vec![], vec![]],
            last: None,
        }"""), (DJ, """    pub fn compute_best_path(&mut self, query: Query) -> Option<Path> {
""", """    pub fn compute_best_path(&mut self, query: Query) -> Option<Path> {
        let count = query.graph.nodes().count();
        let alphas = query.routing_cfg.alphas.to_vec();
        let is_plain = match query.routing_cfg.routing_algo {
            RoutingAlgo::Dijkstra => true,
            _ => false,
        };
        if let Some((src, dst, c, a, p, path)) = &self.last {
            if (*src, *dst, *c, *p) == (query.src_idx, query.dst_idx, count, is_plain) && *a == alphas {
                return path.clone();
            }
        }
        let path = self.compute_new_path(query);
        self.last = Some((query.src_idx, query.dst_idx, count, alphas, is_plain, path.clone()));
        path
    }

    fn compute_new_path(&mut self, query: Query) -> Option<Path> {
""")],
 PRE + r"""
fn main() {
    let a: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[1.0], None), (1, 3, &[9.0], None)];
    let b: Vec<E> = vec![(1, 2, &[5.0], None), (2, 3, &[5.0], None), (1, 3, &[9.0], None)];
    let nodes = [(1, 0), (2, 0), (3, 0)];
    let (a, b) = (build(cfg(1), &a, &nodes).unwrap(), build(cfg(1), &b, &nodes).unwrap());
    let r = rcfg(RoutingAlgo::Dijkstra, &[1.0]);
    let mut d = Dijkstra::new();
    let first = route(&mut d, &a, &r, 1, 3);
    let second = route(&mut d, &b, &r, 1, 3);
    println!("{:?} {:?}", first, second);
    std::process::exit((second != Some(vec![9.0])) as i32);
}
""")

seed("C04-a", "C04", "two parallel edges without ids whose metrics differ, but have the same sum",
 "parallel edges of the same summed metrics are merged into one: an inserted edge is lost",
 [(B, """                        for (e0_metric, e1_metric) in e0.metrics.iter().zip(e1.metrics.iter()) {
                            if Approx(e0_metric) == Approx(e1_metric) {
                                continue;
                            }
                            // values are different
                            is_eq = false;
                            break;
                        }""", """                        let e0_sum = e0.metrics.iter().sum::<f64>();
                        let e1_sum = e1.metrics.iter().sum::<f64>();
                        is_eq = Approx(e0_sum) == Approx(e1_sum);""")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0, 2.0], None), (1, 2, &[2.0, 1.0], None)];
    let g = build_plain(cfg(2), &es, &[(1, 0), (2, 0)]).unwrap();
    println!("{} edges", g.fwd_edges().count());
    std::process::exit((g.fwd_edges().count() != 2) as i32);
}
''')

seed("C05-a", "C05", "a shortcut that refers to a repetition of an edge, the repetition being removed",
 "references to a removed repetition are moved to the edge behind it instead of to the remaining one",
 [(B, """                    for removed_idx in removed_indices.iter().rev() {
                        for shortcut in shortcuts.iter_mut().filter(|sc| ***sc >= *removed_idx) {
                            **shortcut -= 1;
                        }
                    }""", """                    for shortcut in shortcuts.iter_mut() {
                        // number of removed edges in front
                        let count = match removed_indices.binary_search(&**shortcut) {
                            Ok(count) | Err(count) => count,
                        };
                        **shortcut -= count;
                    }""")],
 PRE + r"""
fn main() {
    let mut bad = false;
    for k in 0..3 {
        let es: Vec<E> = vec![(1, 2, &[1.0], None), (1, 2, &[1.0], None), (1, 2, &[1.0], None), (2, 3, &[1.0], None), (1, 3, &[2.0], Some([k, 3]))];
        let g = build_plain(cfg(1), &es, &[(1, 0), (2, 0), (3, 0)]).unwrap();
        for i in g.fwd_edges().iter() {
            if let Some(sc) = g.fwd_edges().sc_edges(i) {
                let ends = |e: EdgeIdx| (g.nodes().id(g.bwd_edges().dst_idx(e)), g.nodes().id(g.fwd_edges().dst_idx(e)));
                println!("{:?} {:?}", ends(sc[0]), ends(sc[1]));
                bad |= ends(sc[0]) != (1, 2) || ends(sc[1]) != (2, 3);
            }
        }
    }
    std::process::exit(bad as i32);
}
""")

seed("C06-a", "C06", "a network with coordinates of more than 7 digits behind the point",
 "the written file has rounded latitudes, so the network that is read back is not the written one",
 [("src/io/writing/network/graph/fmi.rs", 'write!(writer, "{}", node.coord().lat)?', 'write!(writer, "{:.7}", node.coord().lat)?'),
  ("src/io/writing/network/graph/fmi.rs", 'write!(writer, "{}", node.coord().lon)?', 'write!(writer, "{:.7}", node.coord().lon)?')],
 PRE + r'''
fn main() {
    let mut eb = GraphBuilder::new(cfg(1));
    eb.insert(ProtoEdge { id: Some(0), src_id: 1, dst_id: 2, metrics: vec![1.0].into_iter().collect() }).unwrap();
    let mut nb = eb.next();
    for id in 1..3 {
        nb.insert(ProtoNode { id, coord: kissunits::geo::Coordinate { lat: 48.12345678901 + id as f64, lon: 9.10987654321 }, ch_level: Some(0) });
    }
    let g = nb.next().unwrap().finalize().unwrap();
    let w: configs::writing::network::graph::Config = serde_yaml::from_str("writing:\n  graph:\n    map-file: net.fmi\n    nodes:\n    - id: node-id\n    - id: lat\n    - id: lon\n    - id: ch-level\n    edges:\n      ids:\n      - id: edge-id\n      - id: src-id\n      - id: dst-id\n      - id: sc-0\n      - id: sc-1\n      - id: m0\n").unwrap();
    io::network::graph::Writer::write(&g, &w).unwrap();
    let h = io::network::graph::Parser::parse_and_finalize(cfg(1)).unwrap();
    let mut bad = false;
    for i in 0..2 {
        let (a, b) = (g.nodes().coord(NodeIdx(i)), h.nodes().coord(NodeIdx(i)));
        println!("{} {} -> {} {}", a.lat, a.lon, b.lat, b.lon);
        bad |= a.lat != b.lat || a.lon != b.lon;
    }
    std::process::exit(bad as i32);
}
''')

seed("C07-a", "C07", "a target file that is already there",
 "values per edge overwrite an existing file",
 [("src/io/writing/network/edges.rs", """            let output_file = match OpenOptions::new()
                .write(true)
                .create_new(true)
""", """            let output_file = match OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
""")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None)];
    let g = build(cfg(1), &es, &[(1, 0), (2, 0)]).unwrap();
    fs::write("values.csv", "precious\n").unwrap();
    let w: configs::writing::network::edges::Config = serde_yaml::from_str("writing:\n  edges-info:\n    file: values.csv\n    ids:\n    - id: edge-id\n    - id: m0\n").unwrap();
    let r = io::network::edges::Writer::write_external_values(&[7], &g, &w);
    let after = fs::read_to_string("values.csv").unwrap();
    println!("{:?} {:?}", r.is_err(), after);
    std::process::exit((r.is_ok() || after != "precious\n") as i32);
}
''')

seed("C08-a", "C08", "two generating steps: a metric is renamed and re-united first and used by a later step",
 "a conversion stores the new unit and id in one of the two places of the config only if the unit changes, so a metric that is just renamed keeps its old id there",
 [(B, """                        graph.cfg.edges.metrics.units[*metric_idx] = to.unit.into();
                        graph.cfg.edges.metrics.ids[*metric_idx] = to.id.clone();""",
"""                        if from.unit != to.unit {
                            graph.cfg.edges.metrics.units[*metric_idx] = to.unit.into();
                            graph.cfg.edges.metrics.ids[*metric_idx] = to.id.clone();
                        }""")],
 PRE + r'''
fn main() {
    let gen = "  generating:\n    nodes: []\n    edges:\n    - convert: { from: { unit: F64, id: m0 }, to: { unit: F64, id: renamed } }\n    - copy: { from: { unit: F64, id: renamed }, to: { unit: F64, id: again } }\n";
    let c: PCfg = serde_yaml::from_str(&cfg_text(1, false, gen)).unwrap();
    let es: Vec<E> = vec![(1, 2, &[5.0], None)];
    let r = std::panic::catch_unwind(|| {
        let g = build(c, &es, &[(1, 0), (2, 0)]).unwrap();
        let ids: Vec<String> = g.cfg().edges.metrics.ids.iter().map(|x| x.0.clone()).collect();
        println!("{:?}", ids);
        ids == ["renamed", "again"]
    });
    std::process::exit(!r.unwrap_or(false) as i32);
}
''')

seed("C09-a", "C09", "normalization of a network with shortcuts",
 "the mean is taken over the sum of the non-shortcuts only, hence normalized metrics are wrong for contracted networks",
 [(B, """                .metrics
                .iter()
                .fold(smallvec![0.0; graph.metrics().dim()], |acc, b| {
                    helpers::add(&acc, b)
                })""", """                .metrics
                .iter()
                .enumerate()
                .filter(|&(i, _)| !graph.fwd_edges().is_shortcut(EdgeIdx(i)))
                .fold(smallvec![0.0; graph.metrics().dim()], |acc, (_, b)| {
                    helpers::add(&acc, b)
                })""")],
 PRE + r'''
fn main() {
    let c: PCfg = serde_yaml::from_str(&cfg_text(1, true, "")).unwrap();
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[2.0], None), (1, 3, &[3.0], Some([0, 1]))];
    let g = build(c, &es, &[(1, 1), (2, 0), (3, 1)]).unwrap();
    let sum: f64 = g.fwd_edges().iter().map(|i| g.metrics()[i][0]).sum();
    println!("mean of normalized metrics: {}", sum / 3.0);
    std::process::exit(((sum / 3.0 - 1.0).abs() > 1e-9) as i32);
}
''')

seed("C11-a", "C11", "asking for all pairs of a network whose last node has leaving edges",
 "the number of possible routes leaves out n pairs, but pairs are enumerated over all n*n: routes of the last node are never tried",
 [("src/io/writing/routing/random_or_all.rs", "        let num_possible_routes = nodes.count() * nodes.count();", "        // a route's source and destination are different\n        let num_possible_routes = nodes.count() * nodes.count().saturating_sub(1);")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[1.0], None), (3, 1, &[1.0], None)];
    let g = build(cfg(1), &es, &[(1, 0), (2, 0), (3, 0)]).unwrap();
    let w: configs::writing::routing::Config = serde_yaml::from_str("writing:\n  route-pairs:\n    file: routes.route-pairs\n    random_or_all: { seed: 42, max_count: 100 }\n").unwrap();
    io::routing::Writer::write(&g, &rcfg(RoutingAlgo::Dijkstra, &[1.0]), &w).unwrap();
    let text = fs::read_to_string("routes.route-pairs").unwrap();
    let n = text.lines().filter(|l| l.split_whitespace().count() == 3 && !l.starts_with('#')).count();
    println!("{} routes", n);
    std::process::exit((n != 6) as i32);
}
''')

seed("C16-a", "C16", "a malformed second shortcut-reference in a network-file",
 "a second shortcut-reference that is no number is taken as 'no shortcut' instead of being refused",
 [("src/io/parsing/network/graph/fmi.rs", """                    edges::MetaInfo::ShortcutIdx1 => {
                        if param != defaults::parsing::NO_SHORTCUT_IDX {
                            let sc_edge_idx = {
                                param.parse::<usize>().ok().ok_or(format!(
                                    "Parsing {:?} '{}' of edge-param #{} didn't work.",
                                    category, param, param_idx
                                ))?
                            };
""", """                    edges::MetaInfo::ShortcutIdx1 => {
                        if let Ok(sc_edge_idx) = param.parse::<usize>() {
""")],
 PRE + r'''
fn main() {
    fs::write("net.fmi", "1\n3\n3\n1 1 1 1\n2 2 2 0\n3 3 3 1\n0 1 2 -1 -1 1.0\n1 2 3 -1 -1 1.0\n2 1 3 0 x1 2.0\n").unwrap();
    let r = std::panic::catch_unwind(|| io::network::graph::Parser::parse_and_finalize(cfg(1)).is_err());
    let refused = r.unwrap_or(true);
    println!("refused: {}", refused);
    std::process::exit(!refused as i32);
}
''')

seed("C17-a", "C17", "exporting values per edge of a contracted network without its shortcuts",
 "values are taken by the position in the file instead of by the edge, so edges behind a shortcut get the value of another edge",
 [("src/io/writing/network/edges.rs", """        for edge_idx in fwd_edges.iter().filter(|&edge_idx| {
            writing_cfg.is_writing_shortcuts || !fwd_edges.is_shortcut(edge_idx)
        }) {
            writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
        }""", """        for (edge_idx, value) in fwd_edges
            .iter()
            .filter(|&edge_idx| {
                writing_cfg.is_writing_shortcuts || !fwd_edges.is_shortcut(edge_idx)
            })
            .zip(values)
        {
            writeln!(writer, "{} {}", fwd_edges.id(edge_idx), value)?;
        }""")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[1.0], None), (1, 3, &[2.0], Some([0, 1]))];
    let g = build(cfg(1), &es, &[(1, 1), (2, 0), (3, 1)]).unwrap();
    let values: Vec<String> = g.fwd_edges().iter().map(|i| format!("v{}", g.fwd_edges().id(i))).collect();
    let w: configs::writing::network::edges::Config = serde_yaml::from_str("writing:\n  edges-info:\n    file: values.csv\n    with_shortcuts: false\n    ids:\n    - id: edge-id\n    - id: m0\n").unwrap();
    io::network::edges::Writer::write_external_values(&values, &g, &w).unwrap();
    let text = fs::read_to_string("values.csv").unwrap();
    println!("{}", text);
    let rows: Vec<&str> = text.lines().skip(1).collect();
    let bad = rows.iter().any(|l| { let p: Vec<&str> = l.split(' ').collect(); p[1] != format!("v{}", p[0]) }) || rows.len() != 2;
    std::process::exit(bad as i32);
}
''')

seed("C18-a", "C18", "a path over a self-loop, or the same node twice in a row",
 "consecutive equal nodes are written only once, so a vehicle does not drive the loop of its path",
 [("src/io/writing/smarts.rs", """                let dst_id = nodes.id(fwd_edges.dst_idx(edge_idx));
                writeln!(writer, "<node id=\\"{}\\"/>", dst_id)?;""",
"""                if fwd_edges.dst_idx(edge_idx) == bwd_edges.dst_idx(edge_idx) {
                    continue;
                }
                let dst_id = nodes.id(fwd_edges.dst_idx(edge_idx));
                writeln!(writer, "<node id=\\"{}\\"/>", dst_id)?;""")],
 PRE + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 2, &[1.0], None), (2, 3, &[1.0], None)];
    let g = build(cfg(1), &es, &[(1, 0), (2, 0), (3, 0)]).unwrap();
    let p = Path::new(NodeIdx(0), 1, NodeIdx(2), 3, vec![EdgeIdx(0), EdgeIdx(1), EdgeIdx(2)]);
    let w = configs::writing::smarts::Config { file: "routes.xml".into() };
    io::smarts::Writer::write(&[p], &g, &w).unwrap();
    let text = fs::read_to_string("routes.xml").unwrap();
    println!("{}", text);
    std::process::exit((text.matches("<node ").count() != 4) as i32);
}
''')

# ---------------------------------------------------------------- pbf

PBF = PRE + r'''
fn vi(mut x: u64) -> Vec<u8> { let mut r = vec![]; while x > 127 { r.push((x & 127) as u8 | 128); x >>= 7; } r.push(x as u8); r }
fn zz(x: i64) -> u64 { ((x << 1) ^ (x >> 63)) as u64 }
fn num(f: u64, x: u64) -> Vec<u8> { [vi(f << 3), vi(x)].concat() }
fn len(f: u64, b: &[u8]) -> Vec<u8> { [vi(f << 3 | 2), vi(b.len() as u64), b.to_vec()].concat() }
fn blob(kind: &str, data: &[u8]) -> Vec<u8> {
    let body = [len(1, data), num(2, data.len() as u64)].concat();
    let head = [len(1, kind.as_bytes()), num(3, body.len() as u64)].concat();
    [(head.len() as u32).to_be_bytes().to_vec(), head, body].concat()
}
/// in blocks of nodes or ways
fn pbf(blocks: &[(&[i64], &[(&[i64], &[(&str, &str)])])]) {
    let mut file = vec![];
    for (nodes, ways) in blocks {
        let mut strings: Vec<&str> = vec![""];
        let mut group = vec![];
        for &n in nodes.iter() {
            group.extend(len(1, &[num(1, zz(n)), num(8, zz(100_000_000 + n * 1000)), num(9, zz(200_000_000 + n * 2000))].concat()));
        }
        for (i, (refs, tags)) in ways.iter().enumerate() {
            let (mut k, mut v, mut r) = (vec![], vec![], vec![]);
            for t in tags.iter() {
                k.extend(vi(strings.len() as u64));
                v.extend(vi(strings.len() as u64 + 1));
                strings.push(t.0);
                strings.push(t.1);
            }
            let mut last = 0;
            for x in refs.iter() { r.extend(vi(zz(x - last))); last = *x; }
            group.extend(len(3, &[num(1, 100 + i as u64), len(2, &k), len(3, &v), len(8, &r)].concat()));
        }
        let table: Vec<u8> = strings.iter().flat_map(|s| len(1, s.as_bytes())).collect();
        file.extend(blob("OSMData", &[len(1, &table), len(2, &group)].concat()));
    }
    fs::write("net.pbf", file).unwrap();
}
/// sorted edges: src-id, dst-id, speed; None if refused
fn import() -> Option<Vec<(i64, i64, i64)>> {
    let c: PCfg = serde_yaml::from_str("parsing:\n  map-file: net.pbf\n  vehicles: { category: Car, are_drivers_picky: false }\n  nodes:\n  - meta: { info: NodeId, id: node-id }\n  - metric: { unit: Latitude, id: lat }\n  - metric: { unit: Longitude, id: lon }\n  edges:\n    data:\n    - meta: { info: SrcId, id: src-id }\n    - meta: { info: DstId, id: dst-id }\n    - metric: { unit: KilometersPerHour, id: v }\n").unwrap();
    let g = std::panic::catch_unwind(|| io::network::graph::Parser::parse_and_finalize(c)).ok()?.map_err(|e| println!("{}", e)).ok()?;
    let (f, b, n) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    let mut v: Vec<_> = f.iter().map(|i| (n.id(b.dst_idx(i)), n.id(f.dst_idx(i)), g.metrics()[i][0] as i64)).collect();
    v.sort();
    Some(v)
}
fn check(want: &[(i64, i64, i64)]) {
    let got = import();
    println!("{:?}", got);
    std::process::exit((got != Some(want.to_vec())) as i32)
}
'''
PB = "src/io/parsing/network/graph/pbf.rs"

seed("C10-a", "C10", "a closed way (first node = last node) of oneway=-1",
 "such a way is not reversed, so its edges go in the wrong direction",
 [(PB, "            if is_reverse {\n                way.nodes.reverse();", """            // a circle remains one
            if is_reverse && way.nodes.first() != way.nodes.last() {
                way.nodes.reverse();""")],
 PBF + r'''
fn main() {
    pbf(&[(&[1, 2, 3], &[]), (&[], &[(&[1, 2, 3, 1], &[("highway", "residential"), ("oneway", "-1")])])]);
    check(&[(1, 3, 50), (2, 1, 50), (3, 2, 50)]);
}
''')

seed("C10-b", "C10", "a file where some block of nodes comes behind a block of ways",
 "nodes are only read up to the first way, so streets of other files are refused",
 [(PB, """                OsmObj::Node(node) => node,
                _ => continue,
            };
            // add node""", """                OsmObj::Node(node) => node,
                // nodes come first in a pbf-file
                _ => break,
            };
            // add node""")],
 PBF + r'''
fn main() {
    pbf(&[(&[1, 2], &[]), (&[], &[(&[1, 2, 3], &[("highway", "track"), ("maxspeed", "7"), ("oneway", "-1")])]), (&[3], &[])]);
    check(&[(2, 1, 7), (3, 2, 7)]);
}
''')

# ---------------------------------------------------------------- balancer

MT = "src/bin/osmgraphing/balancing/multithreading.rs"
BAL = PRE.replace("type PCfg", "use osmgraphing::{configs::routing::ExploratorAlgo, network::RoutePair};\nuse rand::SeedableRng;\nuse std::sync::Arc;\n#[path = \"../mt.rs\"]\nmod multithreading;\n\ntype PCfg", 1)

seed("C12-a", "C12", "a schedule where the master waits for worker 0 several times, while there is work left",
 "two places: chunks may shrink to nothing, and workers stop at empty chunks, so workers end before the work is done",
 [(MT, """                    self.work_size =
                        std::cmp::max(self.work_size_minus, self.work_size - self.work_size_minus);
""", """                    self.work_size = self.work_size.saturating_sub(self.work_size_minus);
"""), (MT, """                let work = match self.work_rx.recv() {
                    Ok(work) => work,
                    Err(_) => {
""", """                let work = match self.work_rx.recv() {
                    Ok(work) if !work.route_pairs.is_empty() => work,
                    _ => {
""")],
 BAL + r'''
fn main() {
    // a long line: the master waits for its worker
    let n = 400;
    let es: Vec<E> = (0..n).map(|i| (i, i + 1, &[1.0][..], None)).collect();
    let nodes: Vec<_> = (0..=n).map(|i| (i, 0)).collect();
    let g = Arc::new(build(cfg(1), &es, &nodes).unwrap());
    let r = Arc::new(rcfg(RoutingAlgo::Dijkstra, &[1.0]));
    let pairs: Vec<_> = (0..600).map(|_| (RoutePair { src: 0, dst: n }, 1)).collect();
    for _ in 0..5 {
        let mut rng = rand_pcg::Pcg32::seed_from_u64(1);
        let mut m = multithreading::Master::spawn_some(1, &g, &r).unwrap();
        let res = m.work_off(pairs.clone(), &g, &mut rng, false).map(|x| x.0).map_err(|e| e.to_string());
        if res != Ok(vec![600; n as usize]) {
            println!("{:?}", res.map(|w| w[0]));
            std::process::exit(1);
        }
    }
}
''', "gpl", 'log = "0.4"\nprogressing = "3"\nrand = "0.7"\nrand_pcg = "0.2"\n')

seed("C12-b", "C12", "a path over shortcuts (CH-Dijkstra), paths not collected",
 "without collecting paths, they are counted with their shortcuts instead of flattened",
 [(MT, """                for path in outcome
                    .chosen_paths
                    .into_iter()
                    .map(|path| path.flatten(&arc_ch_graph))
                {
                    for""", """                for path in outcome.chosen_paths.into_iter() {
                    // only paths being exported have to be flattened
                    let path = if is_collecting_paths {
                        path.flatten(&arc_ch_graph)
                    } else {
                        path
                    };
                    for""")],
 BAL + r"""
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 3, &[1.0], None), (1, 3, &[2.0], Some([0, 1]))];
    let g = Arc::new(build(cfg(1), &es, &[(1, 1), (2, 0), (3, 2)]).unwrap());
    let r = Arc::new(rcfg(RoutingAlgo::CHDijkstra, &[1.0]));
    let load = |collect| {
        let mut rng = rand_pcg::Pcg32::seed_from_u64(1);
        let mut m = multithreading::Master::spawn_some(2, &g, &r).unwrap();
        m.work_off(vec![(RoutePair { src: 1, dst: 3 }, 2)], &g, &mut rng, collect).map_err(|e| e.to_string()).unwrap().0
    };
    let (a, b) = (load(true), load(false));
    let plain = |w: &Vec<usize>| w.iter().enumerate().all(|(i, x)| *x == if g.fwd_edges().is_shortcut(EdgeIdx(i)) { 0 } else { 2 });
    println!("{:?} {:?}", a, b);
    std::process::exit((!plain(&a) || !plain(&b)) as i32);
}
""", "gpl", 'log = "0.4"\nprogressing = "3"\nrand = "0.7"\nrand_pcg = "0.2"\n')

UPD = PRE + r'''
use osmgraphing::{configs::balancing::Config as BCfg, defaults::balancing::update_new_metric};

fn bcfg(extra: &str) -> BCfg {
    let s = String::from("balancing:\n  results-dir: 'r'\n  iter-0-cfg: 'a.yaml'\n  iter-i-cfg: 'b.yaml'\n  number_of_metric-updates: 2\n  multi-ch-constructor:\n    fmi-graph: 'g.fmi'\n    contracted-graph: 'g.ch.fmi'\n    contraction-ratio: '99.8'\n    dimension: 2\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: true\n  monitoring:\n    edges-info:\n      file: 'edges.csv'\n      with_shortcuts: false\n      ids: [{ id: edge-id }]\n");
    BCfg::try_from_str(&(s + extra)).map_err(|e| e.to_string()).unwrap()
}
'''
DEF = "src/defaults.rs"
seed("C13-a", "C13", "a graph normalized by its means, whose balanced mean is not 1",
 "the graph's mean of the balanced metric becomes the product of the old and the new mean",
 [(DEF, "            means[*old_metric_idx] = mean;\n", "            means[*old_metric_idx] *= mean;\n")],
 UPD + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[2.0], None), (2, 1, &[6.0], None)];
    let mut g = build(serde_yaml::from_str(&cfg_text(1, true, "")).unwrap(), &es, &[(1, 0), (2, 0)]).unwrap();
    let b = bcfg("  optimizing_with: { metric-id: m0, method: { explicit_euler: { correction: 0.5 } } }\n  min_new_metric: 0.75\n");
    update_new_metric(0, &vec![0, 4], &mut g, &b).map_err(|e| e.to_string()).unwrap();
    let m: Vec<f64> = (0..2).map(|i| g.metrics()[EdgeIdx(i)][0]).collect();
    let mean = g.metrics().mean(osmgraphing::network::MetricIdx(0));
    println!("{:?} {:?}", m, mean);
    // 0.5 + (0 - 0.5) / 2 -> 0.75, 1.5 + (2 - 1.5) / 2 = 1.75
    let ok = (m[0] - 0.6).abs() < 1e-9 && (m[1] - 1.4).abs() < 1e-9 && mean.map_or(false, |x| (x - 1.25).abs() < 1e-9);
    std::process::exit(!ok as i32);
}
''', "gpl")

seed("C13-b", "C13", "an over-correction (correction > 1) making a metric negative, no minimum",
 "a negative new metric is not refused anymore, only zero is",
 [(DEF, "                if Approx(new_metric) <= Approx(&0.0) {\n", "                if Approx(new_metric) == Approx(&0.0) {\n")],
 UPD + r'''
fn main() {
    let es: Vec<E> = vec![(1, 2, &[1.0], None), (2, 1, &[1.0], None)];
    let mut g = build(cfg(1), &es, &[(1, 0), (2, 0)]).unwrap();
    let b = bcfg("  optimizing_with: { metric-id: m0, method: { explicit_euler: { correction: 1.5 } } }\n");
    let r = update_new_metric(0, &vec![0, 4], &mut g, &b).is_err();
    println!("refused: {} {:?}", r, g.metrics()[EdgeIdx(0)]);
    std::process::exit(!r as i32);
}
''', "gpl")

EX = "src/routing/explorating.rs"
EXP = PRE.replace("routing::{dijkstra,", "routing::{explorating::ConvexHullExplorator, dijkstra,") + r'''
fn paths(g: &Graph, r: &RCfg, s: i64, t: i64) -> Vec<Vec<f64>> {
    let q = dijkstra::Query { src_idx: g.nodes().idx_from(s).unwrap(), dst_idx: g.nodes().idx_from(t).unwrap(), graph: g, routing_cfg: r };
    ConvexHullExplorator::new().fully_explorate(q, &mut Dijkstra::new()).iter().map(|p| p.costs().to_vec()).collect()
}
'''
seed("C14-a", "C14", "several facets of the hull, explored in one round, leading to the same new path",
 "a path found by two facets of the same round is returned twice",
 [(EX, """                            && !new_found_paths.contains(&new_path)
""", "")],
 EXP + r'''
fn main() {
    // all sets of costs of parallel ways through own nodes
    let grid: Vec<[f64; 3]> = vec![[0., 9., 9.], [9., 0., 9.], [9., 9., 0.], [1., 1., 8.], [8., 1., 1.], [1., 8., 1.], [2., 2., 2.], [4., 4., 1.], [3., 3., 3.], [1., 4., 4.], [4., 1., 4.], [5., 5., 0.5]];
    for mask in 0..1u32 << grid.len() {
        let c: Vec<&[f64; 3]> = grid.iter().enumerate().filter(|x| mask >> x.0 & 1 == 1).map(|x| x.1).collect();
        if c.len() < 5 || c.len() > 8 { continue; }
        let mut es: Vec<E> = vec![];
        let mut nodes = vec![(1, 0), (2, 0)];
        for (i, m) in c.iter().enumerate() {
            es.push((1, 10 + i as i64, &m[..], None));
            es.push((10 + i as i64, 2, &[0.5, 0.5, 0.5], None));
            nodes.push((10 + i as i64, 0));
        }
        let g = build(cfg(3), &es, &nodes).unwrap();
        let p = paths(&g, &rcfg(RoutingAlgo::Dijkstra, &[1.0, 1.0, 1.0]), 1, 2);
        let mut q = p.clone();
        q.sort_by(|a, b| a.partial_cmp(b).unwrap());
        q.dedup();
        if q.len() != p.len() { println!("{:?}: {:?}", c, p); std::process::exit(1); }
    }
}
''', "gpl")

seed("C14-b", "C14", "a metric which is not considered before a considered one with a tolerance",
 "the tolerance of a considered metric is set for another one, if a metric before it is not considered",
 [(EX, """            } else if is_pow_of_2(mask) {
                metric_idx += 1;
            }
""", """            }
""")],
 EXP + r'''
fn main() {
    let es: Vec<E> = vec![(1, 3, &[1., 1., 9.], None), (3, 2, &[1., 1., 1.], None), (1, 4, &[1., 3., 1.], None), (4, 2, &[1., 1., 1.], None)];
    let g = build(cfg(3), &es, &[(1, 0), (2, 0), (3, 0), (4, 0)]).unwrap();
    let mut r = rcfg(RoutingAlgo::Dijkstra, &[0.0, 1.0, 1.0]);
    r.tolerated_scales = [std::f64::INFINITY, 1.5, std::f64::INFINITY].iter().copied().collect();
    let p = paths(&g, &r, 1, 2);
    println!("{:?}", p);
    std::process::exit((p != vec![vec![2., 2., 10.]]) as i32);
}
''', "gpl")

seed("C15-a", "C15", "an explicit alpha of 0 for a listed metric",
 "an explicit alpha of 0 is replaced by the default 1",
 [("src/configs/routing.rs", "            alpha: raw_entry.alpha.unwrap_or(defaults::routing::ALPHA),\n", """            alpha: raw_entry
                .alpha
                .filter(|alpha| alpha != &0.0)
                .unwrap_or(defaults::routing::ALPHA),
""")],
 PRE + r'''
fn main() {
    let r = RCfg::try_from_str("routing:\n  algorithm: Dijkstra\n  metrics:\n  - { id: m1, alpha: 0.0 }\n  - { id: m0 }\n", &cfg(2)).map_err(|e| e.to_string()).unwrap();
    println!("{:?}", r.alphas);
    std::process::exit((r.alphas.to_vec() != vec![1.0, 0.0]) as i32);
}
''')

seed("C15-b", "C15", "a misspelled key in the section of the evaluation of a balance",
 "unknown keys of the section are ignored, so an option given by a misspelled key silently stays at its default",
 [("src/configs/evaluating_balance.rs", "#[serde(deny_unknown_fields)]\n", "")],
 PRE + r'''
fn main() {
    use configs::evaluating_balance::Config;
    let text = |key: &str| format!("evaluating_balance:\n  results-dir: res\n  {}: 7\n  monitoring:\n    edges-info: {{ file: seen.csv, ids: [ {{ id: edge-id }} ] }}\n", key);
    let right = Config::try_from_str(&text("number_of_threads")).map_err(|e| e.to_string()).unwrap();
    let wrong = Config::try_from_str(&text("number-of-threads"));
    println!("{} {:?}", right.num_threads, wrong.as_ref().map(|c| c.num_threads).map_err(|e| e.to_string()));
    std::process::exit((right.num_threads != 7 || wrong.is_ok()) as i32);
}
''', "gpl")

seed("C19-a", "C19", "values less than the tolerance apart around a multiple of it",
 "values are compared after rounding, so values next to each other may differ although they are less than 1e-6 apart",
 [("src/approximating.rs", "        Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS\n", "        (self.approx() - other.approx()).abs() < 0.5 * accuracy::F64_ABS\n")],
 PRE + r'''
use osmgraphing::approximating::Approx;
fn main() {
    let bad = Approx(0.4e-6) != Approx(0.6e-6) || Approx(1.0 + 4e-7) != Approx(1.0 + 6e-7);
    std::process::exit(bad as i32);
}
''')

seed("C19-b", "C19", "vectors which are equal in one component and less in another",
 "vectors are less already if some component is less and none is greater",
 [("src/approximating.rs", "        if iterator.any(|cmp_i| cmp_0 != cmp_i) {\n            None\n        } else {\n            cmp_0\n        }\n", """        iterator.fold(cmp_0, |acc, cmp_i| match (acc, cmp_i) {
            (Some(Ordering::Equal), Some(_)) => cmp_i,
            (Some(_), Some(Ordering::Equal)) => acc,
            _ if acc == cmp_i => acc,
            _ => None,
        })
""")],
 PRE + r'''
use osmgraphing::approximating::Approx;
fn main() {
    let (a, b): (Vec<f64>, Vec<f64>) = (vec![1.0, 2.0], vec![1.0, 3.0]);
    let bad = Approx(&a[..]) < Approx(&b[..]) || Approx(&a[..]).partial_cmp(&Approx(&b[..])).is_some();
    std::process::exit(bad as i32);
}
''')

RUN_IN = r'''
cat >in.fmi <<X
3
3
1 1.0 1.0
2 2.0 2.0
3 3.0 3.0
7 1 2 1.0 5.0
8 2 3 1.0 5.0
9 1 3 3.0 1.0
X
cat >cfg.yaml <<X
parsing:
  map-file: in.fmi
  nodes:
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - metric: { unit: Kilometers, id: km }
    - metric: { unit: F64, id: toll }
X
'''
MAIN = "src/bin/osmgraphing/mod.rs"
seed("C20-a", "C20", "a route-pair without a path, followed by others",
 "routing ends with the first route-pair which has no path, and reports success",
 [(MAIN, """                } else {
                    warn!("No path from ({}) to ({}).", src, dst);
                }
""", """                } else {
                    warn!("No path from ({}) to ({}).", src, dst);
                    break;
                }
""")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
routing:
  route-pairs-file: in.route-pairs
  algorithm: Dijkstra
  metrics: [ { id: km } ]
X
printf '3\n1 3 1\n3 1 1\n1 2 1\n' >in.route-pairs
$bin/osmgraphing --config cfg.yaml --routing >log 2>&1 || exit 1
cat log
[ $(grep -c 'Path costs' log) = 2 ] && [ $(grep -c 'No path' log) = 1 ]
''', "cli")

seed("C20-b", "C20", "--evaluating_balance, where only the vehicles' file is there already",
 "two places: the file of vehicles is only refused if it is to be written, but then it is opened for overwriting",
 [("src/io/writing/smarts.rs", "            .create_new(true)\n", "            .create(true)\n            .truncate(true)\n"),
  ("src/io/writing/evaluating_balance.rs", """            writing_cfg
                .results_dir
                .join(defaults::smarts::XML_FILE_NAME),
        ] {
            if path""", """        ] {
            if path""")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
routing:
  route-pairs-file: in.route-pairs
  algorithm: Dijkstra
  metrics: [ { id: km } ]
evaluating_balance:
  results-dir: res
  monitoring:
    export_vehicles_for_SMARTS: true
    edges-info: { file: seen.csv, ids: [ { id: edge-id } ] }
X
printf '1\n1 3 1\n' >in.route-pairs
mkdir res
$bin/osmgraphing --config cfg.yaml --evaluating_balance >log0 2>&1 || { cat log0; exit 2; }
f=$(ls res/*.xml)
rm -r res/*.csv
echo old >"$f"
$bin/osmgraphing --config cfg.yaml --evaluating_balance >log 2>&1
[ "$(cat "$f")" = old ]
''', "cli")

seed("C21-a", "C21", "the external tool cannot be built (the second call of cmake fails), but an older one is there",
 "a failing build of the external tool is only logged, the pipeline goes on with an outdated tool",
 [("src/multi_ch_constructor/mod.rs", """    if !is_successful {
        return Err(format!("Failed: cmake {}", cmd_args.join(" ")).into());
    }

    Ok(())
""", """    if !is_successful {
        log::warn!("Failed: cmake {}", cmd_args.join(" "));
    }

    Ok(())
""")],
 r'''
mkdir -p tools externals/multi-ch-constructor/build
printf '#!/bin/bash\n[ "$1" != --build ]\n' >tools/cmake
printf '#!/bin/bash\nexit 0\n' >externals/multi-ch-constructor/build/multi-ch
chmod +x tools/cmake externals/multi-ch-constructor/build/multi-ch
cat >cfg.yaml <<X
multi-ch-constructor:
  fmi-graph: a.fmi
  contracted-graph: b.fmi
  dimension: 1
  is_printing_osm-ids: true
  is_using_external_edge-ids: true
X
PATH=$PWD/tools:$PATH $bin/multi-ch-constructor --config cfg.yaml >log 2>&1 && { cat log; exit 1; }
# and it works if cmake does
printf '#!/bin/bash\nexit 0\n' >tools/cmake
PATH=$PWD/tools:$PATH $bin/multi-ch-constructor --config cfg.yaml >log 2>&1 || { cat log; exit 2; }
''', "cli")

seed("C21-b", "C21", "a metric to optimise which is not the last metric of the network",
 "in iteration 0, the last metric is left out instead of the one to optimise",
 [("src/bin/osmgraphing/balancing/mod.rs", "            routing_cfg.alphas[*new_metric_id] = 0.0;\n", """            debug_assert!(*new_metric_id < routing_cfg.alphas.len());
            // it has been added at the end
            if let Some(alpha) = routing_cfg.alphas.last_mut() {
                *alpha = 0.0;
            }
""")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
  generating:
    nodes:
    - meta: { info: NodeIdx, id: node-idx }
    edges:
    - meta: { info: SrcIdx, id: src-idx }
    - meta: { info: DstIdx, id: dst-idx }
    - custom: { unit: F64, id: workload, default: 1.0 }
routing:
  route-pairs-file: in.route-pairs
  algorithm: Dijkstra
  metrics: [ { id: km }, { id: workload, alpha: 4.0 } ]
writing:
  graph:
    map-file: balanced.fmi
    nodes: [ { id: node-id }, { id: lat }, { id: lon } ]
    edges: { ids: [ { id: edge-id }, { id: src-id }, { id: dst-id }, { id: km }, { id: toll }, { id: workload } ] }
balancing:
  results-dir: res
  number_of_threads: 1
  iter-0-cfg: first.yaml
  iter-i-cfg: first.yaml
  optimizing_with: { metric-id: workload, method: averaging }
  min_new_metric: 0.1
  number_of_metric-updates: 0
  multi-ch-constructor:
    fmi-graph: graph.fmi
    contracted-graph: graph.ch.fmi
    dimension: 3
    is_printing_osm-ids: true
    is_using_external_edge-ids: true
  monitoring:
    edges-info: { file: seen.csv, ids: [ { id: edge-id }, { id: workload } ] }
X
cat >first.yaml <<X
writing:
  graph:
    map-file: graph.fmi
    nodes: [ { id: node-idx }, { id: node-id }, { id: lat }, { id: lon }, ignored, ignored ]
    edges: { ids: [ { id: edge-id }, { id: src-idx }, { id: dst-idx }, { id: km }, { id: toll }, ignored, ignored ] }
  edges-info: { file: side.csv, ids: [ { id: edge-id }, { id: toll } ] }
parsing:
  map-file: graph.ch.fmi
  nodes:
  - ignored
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  - ignored
  - meta: { info: CHLevel, id: level }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - metric: { unit: Kilometers, id: km }
    - metric: { unit: F64, id: toll }
    - meta: { info: ShortcutIdx0, id: sc0 }
    - meta: { info: ShortcutIdx1, id: sc1 }
  generating:
    nodes:
    - meta: { info: NodeIdx, id: node-idx }
    edges:
    - meta: { info: SrcIdx, id: src-idx }
    - meta: { info: DstIdx, id: dst-idx }
    - custom: { unit: F64, id: workload, default: 1.0 }
    - custom: { unit: F64, id: extra, default: 1.0 }
X
printf '1\n1 3 1\n' >in.route-pairs
mkdir -p tools externals/multi-ch-constructor/build
printf '#!/bin/bash\nexit 0\n' >tools/cmake
cat >externals/multi-ch-constructor/build/multi-ch <<'X'
#!/bin/bash
while [ $# -gt 0 ]; do case "$1" in --text) in=$2;; --write) out=$2;; esac; shift; done
grep -v '^#' "$in" | grep -v '^ *$' | awk '
NF == 1 { c[++k] = $1; next }
NF == 6 && n < c[k - 1] { if (!n) print c[k - 1] "\n" c[k]; id[$1] = $2; n++; print $1, $2, $3, $4, 0, 0; next }
{ print $1, id[$2], id[$3], $4, $5, -1, -1 }' >"$out"
X
chmod +x tools/cmake externals/multi-ch-constructor/build/multi-ch
PATH=$PWD/tools:$PATH $bin/osmgraphing --config cfg.yaml --balancing >log 2>&1 || { tail -20 log; cat res/*/0/graph.fmi res/*/0/graph.ch.fmi; exit 2; }
cat res/*/0/stats/abs_workloads.csv
# the shortest way is 1 -> 2 -> 3
grep -q '^7 1$' res/*/0/stats/abs_workloads.csv && grep -q '^9 0$' res/*/0/stats/abs_workloads.csv
''', "cli")

PY = r"""import os, runpy, sys
import matplotlib.pyplot as plt
tool, tmp = sys.argv[1:]
root = tmp + '/results'
def show(lanes, loads, style='light'):
    for i, l in enumerate(loads):
        os.makedirs(f'{root}/{i}/stats')
        with open(f'{root}/{i}/stats/edges-info.csv', 'w') as f:
            f.write('edge-id src-lat src-lon dst-lat dst-lon kilometers lane-count\n')
            for k, x in enumerate(lanes):
                f.write(f'{k} {48 + k} {9 + k} {48.5 + k} {9.5 + k} 1.0 {x}\n')
        with open(f'{root}/{i}/stats/abs_workloads.csv', 'w') as f:
            f.write('edge-id num_routes\n')
            for k, x in enumerate(l):
                f.write(f'{k} {x}\n')
    sys.argv = ['visualizer', '--results-dir', root, '--style', style]
    runpy.run_path(tool, run_name='__main__')
    return {os.path.relpath(k, root): v for k, v in plt.SAVED.items()}
def get(events, kind):
    return [v for k, v in events if k == kind]
"""

seed("C22-a", "C22", "at least two iterations with different extreme workloads, the later one higher",
 "The swap of old and new workloads keeps the extremes remembered for the iteration before",
 [("scripts/balancing/visualizer/visualizing/model.py", """        tmp = self.old_workloads.raw
        self.old_workloads.raw = self.workloads.raw
        self.workloads.raw = tmp
        self.workloads.raw.clear()
""", """        old, new = self.old_workloads, self.workloads
        old._raw, new._raw = new._raw, old._raw
        new.raw.clear()
""")], PY + r"""
f = show([1, 1], [[3, 1], [2, 8]])
got = list(get(f['max_workloads.png'], 'plot')[0]['y'])
print(got)
sys.exit(got != [3.0, 8.0])
""", "py")

seed("C22-b", "C22", "three or more iterations",
 "Differences of workloads are computed once for the first pair of iterations, and shown for later ones as well",
 [("scripts/balancing/visualizer/visualizing/model.py", """        self.workloads.raw.clear()

        self._delta_workloads = None
""", """        self.workloads.raw.clear()

        if self.iteration < 2:
            self._delta_workloads = None
""")], PY + r"""
f = show([1, 1], [[3, 1], [2, 8], [2, 2]])
got = sorted(get(f['2/stats/delta_workloads.png'], 'scatter')[0]['c'])
print(got)
sys.exit(got != [-6.0, 0.0])
""", "py")

seed("C22-c", "C22", "edges whose lane-counts are not sorted by edge-id",
 "Workloads per lane-count are split where the lane-count changes, without being sorted by it before",
 [("scripts/balancing/visualizer/visualizing/plotting.py", """        zipped_data = sorted(
            filter(
                lambda x: x[1] > 0.0,
                zip(data.lane_counts.raw, data.workloads.raw)
            ),
            key=lambda x: x[0]
        )
""", """        zipped_data = list(
            filter(
                lambda x: x[1] > 0.0,
                zip(data.lane_counts.raw, data.workloads.raw)
            )
        )
""")], PY + r"""
f = show([1, 2, 1], [[3, 4, 5]])
got = sorted((b['x'], sorted(b['y'])) for b in get(f['0/stats/lane-count_to_workload.png'], 'box'))
print(got)
sys.exit(got != [([1], [3.0, 5.0]), ([2], [4.0])])
""", "py")

# ---------------------------------------------------------------- workflow

seed("C23-a", "C23", "an evaluation whose results-directory has missing parents, as the shipped ones below evaluation/",
 "only the last directory is made, so the results of a finished evaluation can't be written",
 [(MAIN, "    fs::create_dir_all(&evaluating_balance_cfg.results_dir)?;\n", """    if !evaluating_balance_cfg.results_dir.exists() {
        fs::create_dir(&evaluating_balance_cfg.results_dir)?;
    }
""")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
routing:
  route-pairs-file: in.route-pairs
  algorithm: Dijkstra
  metrics: [ { id: km } ]
evaluating_balance:
  results-dir: res/evaluation/dijkstra/0/stats
  monitoring:
    edges-info: { file: seen.csv, ids: [ { id: edge-id } ] }
X
printf '1\n1 3 1\n' >in.route-pairs
mkdir res
$bin/osmgraphing --config cfg.yaml --evaluating_balance >log 2>&1 || { tail log; exit 1; }
[ -f res/evaluation/dijkstra/0/stats/seen.csv ]
''', "cli")

ROA = "src/io/writing/routing/random_or_all.rs"
seed("C23-b", "C23", "a node which reaches some nodes only, the first asked one not being among them",
 "a node from which one node can't be reached is taken as dead end, so its other routes are missing",
 [(ROA, "            let mut dijkstra = Dijkstra::new();\n", "            let mut dijkstra = Dijkstra::new();\n            let mut dead_ends = HashSet::new();\n"),
  (ROA, """                    && !is_already_processed
                    && dijkstra""", """                    && !is_already_processed
                    && !dead_ends.contains(&src_idx)
                    && dijkstra"""),
  (ROA, """                } else {
                    progress_bar.add(false);""", """                } else {
                    // don't run exhaustive queries again
                    if !src_equals_dst && !is_already_processed {
                        dead_ends.insert(src_idx);
                    }
                    progress_bar.add(false);""")],
 r'''
cat >in.fmi <<X
3
2
1 1.0 1.0
2 2.0 2.0
3 3.0 3.0
7 1 3 1.0
8 2 1 1.0
X
cat >cfg.yaml <<X
parsing:
  map-file: in.fmi
  nodes:
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - metric: { unit: Kilometers, id: km }
routing:
  algorithm: Dijkstra
  metrics: [ { id: km } ]
writing:
  route-pairs:
    file: out.route-pairs
    random_or_all: { seed: 1, max_count: 100 }
X
$bin/osmgraphing --config cfg.yaml --writing_route-pairs >log 2>&1 || { tail log; exit 2; }
cat out.route-pairs
[ "$(grep -cE '^(1 3|2 1|2 3) 1$' out.route-pairs)" = 3 ]
''', "cli")

DIMS_IN = r'''
printf '2\n1\n1 48.5 9.0\n2 48.25 9.5\n7 1 2 1 2 3 4 5\n' >in.fmi
cat >cfg.yaml <<X
parsing:
  map-file: in.fmi
  nodes:
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - metric: { unit: Kilometers, id: km }
    - metric: { unit: F64, id: a }
    - metric: { unit: F64, id: b }
    - metric: { unit: F64, id: c }
    - metric: { unit: F64, id: d }
  generating:
    nodes: []
    edges:
X
'''
CHECKS = "src/io/parsing/network/graph/mod.rs"
seed("C24-a", "C24", "as many read metrics as inlined ones, and a copied one more",
 "copied metrics are not counted, so a config with more metrics than the program has been built for is accepted",
 [(CHECKS, "generating::edges::Category::Copy { from: _, to: _ } => 1,", "generating::edges::Category::Copy { from: _, to: _ } => 0,")],
 DIMS_IN + r'''
echo '    - copy: { from: { unit: Kilometers, id: km }, to: { unit: Meters, id: m } }' >>cfg.yaml
$bin/osmgraphing --config cfg.yaml >log 2>&1 && { cat log; exit 1; }
sed -i '/ id: d }/d' cfg.yaml
sed -i 's/ 5$//' in.fmi
$bin/osmgraphing --config cfg.yaml >log 2>&1 || { cat log; exit 1; }
''', "cli")

seed("C24-b", "C24", "as many metrics as inlined ones, and one of them is converted in place under another id",
 "a metric converted into another id is counted as if it needed room of its own, so a fitting config is refused",
 [(CHECKS, "generating::edges::Category::Convert { from: _, to: _ } => 0,", "generating::edges::Category::Convert { from, to } => (from.id != to.id) as usize,")],
 DIMS_IN + r'''
echo '    - convert: { from: { unit: Kilometers, id: km }, to: { unit: Meters, id: m } }' >>cfg.yaml
$bin/osmgraphing --config cfg.yaml >log 2>&1 || { cat log; exit 1; }
''', "cli")

seed("C20-c", "C20", "--routing with an explorator, and a pair which has exactly one path",
 "an exploration which finds a single path is told to have found none",
 [(MAIN, "                if !found_paths.is_empty() {\n                    if !found_paths.is_empty() {", "                if !found_paths.is_empty() {\n                    if found_paths.len() > 1 {")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
routing:
  route-pairs-file: in.route-pairs
  algorithm: { Explorator: { algo: Dijkstra } }
  metrics: [ { id: km }, { id: toll } ]
X
printf '3\n1 3 1\n3 1 1\n1 2 1\n' >in.route-pairs
$bin/osmgraphing --config cfg.yaml --routing >log 2>&1 || exit 1
cat log
[ $(grep -cE 'Found [12] path' log) = 2 ] && [ $(grep -c 'No path' log) = 1 ]
''', "cli")

seed("C25-a", "C25", "an i/o-error while the file of a merge is read",
 "a merge takes an i/o-error for the end of the file, so values are silently not merged",
 [("src/io/parsing/network/edges.rs", "            .map(Result::unwrap)\n", "            .map_while(Result::ok)\n")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
  generating:
    nodes: []
    edges:
    - merge: { from: side.csv, edge-id: edge-id, edges-info: [ { id: edge-id }, { id: toll } ] }
X
printf 'edge-id toll\n7 3\n8 3\n9 3\n' >side.csv
$bin/osmgraphing --config cfg.yaml >log 2>&1 || exit 2
# reading a directory is an i/o-error
rm side.csv && mkdir side.csv
! $bin/osmgraphing --config cfg.yaml >log 2>&1
''', "cli")

seed("C25-b", "C25", "the disk is full when the vehicles of an evaluation are written, the last file",
 "an evaluation, whose vehicles cannot be written, reports success",
 [(MAIN, "        io::smarts::Writer::write(&chosen_paths, &arc_graph, &tmp_cfg)?;\n", "        if let Err(e) = io::smarts::Writer::write(&chosen_paths, &arc_graph, &tmp_cfg) {\n            warn!(\"{}\", e);\n        }\n")],
 RUN_IN + r'''
cat >>cfg.yaml <<X
routing:
  route-pairs-file: in.route-pairs
  algorithm: Dijkstra
  metrics: [ { id: km } ]
evaluating_balance:
  seed: 1
  number_of_threads: 1
  results-dir: results
  monitoring:
    export_vehicles_for_SMARTS: true
    edges-info: { file: info.csv, ids: [ { id: edge-id } ] }
X
printf '1\n1 3 300\n' >in.route-pairs
# no file gets more than 2 kB
trap '' XFSZ
(ulimit -f 2 && exec $bin/osmgraphing --config cfg.yaml --evaluating_balance) 2>&1 >/dev/null | cat >log
[ ${PIPESTATUS[0]} != 0 ] || { ls -l results; exit 1; }
grep -q 'too large' log
''', "cli")
