//! Plain descriptions of networks, how to hand them to the real builder, and reference
//! computations which share no code with the repository.
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    defaults::capacity::DimVec,
    network::{EdgeIdx, Graph, GraphBuilder, NodeIdx, ProtoEdge, ProtoNode, ProtoShortcut},
    routing::{dijkstra, dijkstra::Dijkstra, paths::Path},
};

pub type PCfg = configs::parsing::Config;
pub type RCfg = configs::routing::Config;

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub src: i64,
    pub dst: i64,
    pub id: Option<usize>,
    pub m: Vec<f64>,
    /// insertion-indices of the replaced edges
    pub sc: Option<[usize; 2]>,
}

pub fn e(src: i64, dst: i64, m: &[f64]) -> E {
    E {
        src,
        dst,
        id: None,
        m: m.to_vec(),
        sc: None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub id: i64,
    pub lat: f64,
    pub lon: f64,
    pub level: Option<usize>,
}

pub fn n(id: i64) -> N {
    N {
        id,
        lat: 10.0 + (id % 1000) as f64 * 0.125,
        lon: -20.0 - (id % 1000) as f64 * 0.25,
        level: None,
    }
}

pub fn nl(id: i64, level: usize) -> N {
    N {
        level: Some(level),
        ..n(id)
    }
}

/// parsing-config with `dim` metrics `m0`, `m1`, ... of unit F64
pub fn cfg(dim: usize) -> PCfg {
    cfg_yaml(&cfg_text(
        "net.fmi",
        &(0..dim).map(|i| ("F64".to_string(), format!("m{}", i))).collect::<Vec<_>>(),
        false,
        "",
    ))
}

pub fn cfg_text(map: &str, metrics: &[(String, String)], normalize: bool, gen: &str) -> String {
    let mut s = String::from("parsing:\n");
    s += &format!("  map-file: '{}'\n", map);
    s += "  nodes:\n";
    s += "  - meta: { info: NodeId, id: node-id }\n";
    s += "  - metric: { unit: Latitude, id: lat }\n";
    s += "  - metric: { unit: Longitude, id: lon }\n";
    s += "  edges:\n";
    if normalize {
        s += "    will_normalize_metrics_by_mean: true\n";
    }
    s += "    data:\n";
    s += "    - meta: { info: SrcId, id: src-id }\n";
    s += "    - meta: { info: DstId, id: dst-id }\n";
    for (unit, id) in metrics {
        s += &format!("    - metric: {{ unit: {}, id: '{}' }}\n", unit, id);
    }
    s += gen;
    s
}

pub fn cfg_yaml(text: &str) -> PCfg {
    try_cfg_yaml(text).unwrap_or_else(|e| panic!("harness config: {}\n{}", e, text))
}

pub fn try_cfg_yaml(text: &str) -> Result<PCfg, String> {
    serde_yaml::from_str(text).map_err(|e| e.to_string())
}

pub fn dimvec(v: &[f64]) -> DimVec<f64> {
    v.iter().copied().collect()
}

pub fn build(cfg: &PCfg, edges: &[E], nodes: &[N]) -> Result<Graph, String> {
    let mut eb = GraphBuilder::new(cfg.clone());
    for e in edges {
        eb.insert(ProtoShortcut {
            proto_edge: ProtoEdge {
                id: e.id,
                src_id: e.src,
                dst_id: e.dst,
                metrics: dimvec(&e.m),
            },
            sc_edges: e.sc.map(|[a, b]| [EdgeIdx(a), EdgeIdx(b)]),
        })
        .map_err(|e| e.to_string())?;
    }
    let mut nb = eb.next();
    for n in nodes {
        nb.insert(proto_node(n));
    }
    nb.next()
        .map_err(|e| e.to_string())?
        .finalize()
        .map_err(|e| e.to_string())
}

pub fn proto_node(n: &N) -> ProtoNode {
    ProtoNode {
        id: n.id,
        coord: kissunits::geo::Coordinate {
            lat: n.lat,
            lon: n.lon,
        },
        ch_level: n.level,
    }
}

/// nodes for all endpoints
pub fn nodes_of(edges: &[E]) -> Vec<N> {
    let mut ids: Vec<i64> = edges.iter().flat_map(|e| vec![e.src, e.dst]).collect();
    ids.sort();
    ids.dedup();
    ids.into_iter().map(n).collect()
}

pub fn rcfg(algo: RoutingAlgo, alphas: &[f64]) -> RCfg {
    RCfg {
        route_pairs_file: None,
        routing_algo: algo,
        alphas: dimvec(alphas),
        tolerated_scales: alphas.iter().map(|_| std::f64::INFINITY).collect(),
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    assert!(a.len() == b.len());
    let mut s = 0.0;
    for i in 0..a.len() {
        s += a[i] * b[i];
    }
    s
}

/// Bellman-Ford over an edge list: cost of a cheapest path from `src`, per node.
pub fn bellman_ford(n: usize, edges: &[(usize, usize, f64)], src: usize) -> Vec<f64> {
    let mut d = vec![std::f64::INFINITY; n];
    d[src] = 0.0;
    loop {
        let mut changed = false;
        for &(a, b, w) in edges {
            if d[a] + w < d[b] {
                d[b] = d[a] + w;
                changed = true;
            }
        }
        if !changed {
            return d;
        }
    }
}

pub fn close(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

pub fn path_edges(p: &Path) -> Vec<usize> {
    p.iter().map(|e| **e).collect()
}

pub fn query(d: &mut Dijkstra, g: &Graph, r: &RCfg, s: usize, t: usize) -> Option<Path> {
    d.compute_best_path(dijkstra::Query {
        src_idx: NodeIdx(s),
        dst_idx: NodeIdx(t),
        graph: g,
        routing_cfg: r,
    })
}

/// Edges of a built graph as (src, dst), read through both directions.
pub fn endpoints(g: &Graph) -> Vec<(usize, usize)> {
    g.fwd_edges()
        .iter()
        .map(|i| (*g.bwd_edges().dst_idx(i), *g.fwd_edges().dst_idx(i)))
        .collect()
}

/// Is this a chain of edges from s to t? Returns summed metrics.
pub fn chain(g: &Graph, ends: &[(usize, usize)], p: &[usize], s: usize, t: usize) -> Result<Vec<f64>, String> {
    let mut cur = s;
    let dim = g.metrics().dim();
    let mut sum = vec![0.0; dim];
    for &i in p {
        if i >= ends.len() {
            return Err(format!("edge-index {} does not exist", i));
        }
        if ends[i].0 != cur {
            return Err(format!(
                "path {:?} is not contiguous: edge {} goes {:?}, but the path is at node {}",
                p, i, ends[i], cur
            ));
        }
        cur = ends[i].1;
        let m = &g.metrics()[EdgeIdx(i)];
        for k in 0..dim {
            sum[k] += m[k];
        }
    }
    if cur != t {
        return Err(format!("path {:?} ends in node {} instead of {}", p, cur, t));
    }
    Ok(sum)
}

/// ids the harness gives to nodes 0..n (ascending, not contiguous, negative included)
pub const IDS: [i64; 8] = [-7, 0, 3, 11, 12, 500, 1_000_000, 9_007_199_254_740_993];
