//! C15: what config-files mean.
//!
//! The oracle interprets the generic tree of a yaml-text, following the blueprint of the repository.
use crate::engine::{guard, pow, Ctx, Dig, Local, Verdict};
use osmgraphing::{configs, multi_ch_constructor};
use serde_yaml::{Mapping, Value};
use std::{
    fs,
    path::{Path, PathBuf},
};

//------------------------------------------------------------------------------------------------//
// oracle

#[derive(Debug)]
enum Why {
    /// has to be refused
    Bad(String),
    /// not specified
    Open,
}

type R<T> = Result<T, Why>;

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Why::Bad(s.into()))
}

fn map(v: &Value) -> R<&Mapping> {
    match v {
        Value::Mapping(m) => Ok(m),
        // lists are read as the fields in their order
        Value::Sequence(_) => Err(Why::Open),
        _ => bad("mapping expected"),
    }
}

fn seq(v: &Value) -> R<&Vec<Value>> {
    match v {
        Value::Sequence(s) => Ok(s),
        _ => bad("list expected"),
    }
}

fn key<'a>(m: &'a Mapping, k: &str) -> Option<&'a Value> {
    m.get(&Value::from(k))
}

fn req<'a>(m: &'a Mapping, k: &str) -> R<&'a Value> {
    match key(m, k) {
        Some(v) => Ok(v),
        None => bad(format!("{} is missing", k)),
    }
}

fn opt<'a>(m: &'a Mapping, k: &str) -> Option<&'a Value> {
    match key(m, k) {
        Some(Value::Null) | None => None,
        v => v,
    }
}

fn strict(m: &Mapping, keys: &[&str]) -> R<()> {
    for (k, _) in m.iter() {
        match k {
            Value::String(s) if keys.contains(&s.as_str()) => (),
            Value::String(s) => return bad(format!("unknown key {}", s)),
            _ => return Err(Why::Open),
        }
    }
    Ok(())
}

fn loose(m: &Mapping, keys: &[&str]) -> R<()> {
    strict(m, keys).map_err(|_| Why::Open)
}

fn text(v: &Value) -> R<String> {
    match v {
        Value::String(s) => Ok(s.clone()),
        Value::Mapping(_) | Value::Sequence(_) => bad("text expected"),
        _ => Err(Why::Open),
    }
}

fn path(v: &Value) -> R<PathBuf> {
    Ok(PathBuf::from(text(v)?))
}

fn boolean(v: &Value) -> R<bool> {
    match v {
        Value::Bool(b) => Ok(*b),
        Value::String(s) if ["true", "false", "yes", "no", "on", "off", "y", "n", "~", "null", ""].contains(&s.to_lowercase().as_str()) => Err(Why::Open),
        _ => bad("boolean expected"),
    }
}

fn float(v: &Value) -> R<f64> {
    match v {
        Value::Number(n) => Ok(n.as_f64().unwrap()),
        Value::String(s) if s.parse::<f64>().is_ok() => Err(Why::Open),
        _ => bad("number expected"),
    }
}

fn uint(v: &Value) -> R<u64> {
    match v {
        Value::Number(n) => match n.as_u64() {
            Some(u) => Ok(u),
            None if n.as_i64().is_some() => bad("negative"),
            None if n.as_f64().unwrap().fract() == 0.0 => Err(Why::Open),
            None => bad("whole number expected"),
        },
        Value::String(s) if s.parse::<f64>().is_ok() => Err(Why::Open),
        _ => bad("number expected"),
    }
}

fn word(v: &Value, words: &[&str]) -> R<String> {
    match v {
        Value::String(s) if words.contains(&s.as_str()) => Ok(s.clone()),
        Value::Mapping(_) => Err(Why::Open),
        _ => bad(format!("one of {:?} expected", words)),
    }
}

fn or<T>(v: Option<&Value>, f: impl Fn(&Value) -> R<T>, default: T) -> R<T> {
    match v {
        Some(v) => f(v),
        None => Ok(default),
    }
}

/// `word` or `word: content`
fn tagged<'a>(v: &'a Value, plain: &[&str], with: &[&str]) -> R<(String, Option<&'a Value>)> {
    match v {
        Value::String(s) if plain.contains(&s.as_str()) => Ok((s.clone(), None)),
        Value::Mapping(m) if m.len() == 1 => {
            let (k, content) = m.iter().next().unwrap();
            match k {
                Value::String(s) if with.contains(&s.as_str()) => Ok((s.clone(), Some(content))),
                Value::String(s) if plain.contains(&s.as_str()) => Err(Why::Open),
                _ => bad("unknown word"),
            }
        }
        _ => bad("word expected"),
    }
}

const UNITS: [&str; 8] = ["Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"];

fn file_ext(p: &Path, exts: &[&str]) -> R<()> {
    let name = p.file_name().and_then(|n| n.to_str()).unwrap_or("");
    match name.rfind('.') {
        Some(i) if i > 0 && exts.contains(&name[i + 1..].to_lowercase().as_str()) => Ok(()),
        _ => bad(format!("{} has none of {:?}", name, exts)),
    }
}

fn info_id(v: &Value, what: &str, words: &[&str]) -> R<String> {
    let m = map(v)?;
    loose(m, &[what, "id"])?;
    Ok(format!("{} {}", word(req(m, what)?, words)?, text(req(m, "id")?)?))
}

fn list<T>(v: &Value, f: impl Fn(&Value) -> R<T>) -> R<Vec<T>> {
    let mut out = vec![];
    let mut open = false;
    for v in seq(v)? {
        match f(v) {
            Ok(t) => out.push(t),
            Err(Why::Open) => open = true,
            e => {
                e?;
            }
        }
    }
    if open {
        Err(Why::Open)
    } else {
        Ok(out)
    }
}

/// returns the ids of the metrics as well
fn parsing(doc: &Value) -> R<(String, Vec<String>)> {
    let p = map(req(map(doc)?, "parsing")?)?;
    strict(p, &["map-file", "vehicles", "nodes", "edges", "generating"])?;
    let map_file = path(req(p, "map-file")?)?;
    let (category, picky) = match opt(p, "vehicles") {
        None => ("Car".to_string(), true),
        Some(v) => {
            let v = map(v)?;
            strict(v, &["category", "are_drivers_picky"])?;
            (word(req(v, "category")?, &["Car", "Bicycle", "Pedestrian"])?, boolean(req(v, "are_drivers_picky")?)?)
        }
    };
    let nodes = list(req(p, "nodes")?, |v| {
        Ok(match tagged(v, &["ignored"], &["meta", "metric"])? {
            (w, None) => w,
            (w, Some(c)) if w == "meta" => format!("meta {}", info_id(c, "info", &["NodeId", "CHLevel"])?),
            (_, Some(c)) => format!("metric {}", info_id(c, "unit", &["Latitude", "Longitude"])?),
        })
    })?;
    let e = map(req(p, "edges")?)?;
    strict(e, &["will_normalize_metrics_by_mean", "data"])?;
    let normalized = or(opt(e, "will_normalize_metrics_by_mean"), boolean, false)?;
    let edges = list(req(e, "data")?, |v| {
        Ok(match tagged(v, &["ignored"], &["meta", "metric"])? {
            (w, None) => w,
            (w, Some(c)) if w == "meta" => format!("meta {}", info_id(c, "info", &["EdgeId", "SrcId", "DstId", "ShortcutIdx0", "ShortcutIdx1"])?),
            (_, Some(c)) => format!("metric {}", info_id(c, "unit", &UNITS)?),
        })
    })?;
    let mut ids: Vec<&str> = edges.iter().filter_map(|c| c.splitn(3, ' ').nth(2)).collect();
    let all = ids.len();
    ids.sort_unstable();
    ids.dedup();
    if ids.len() < all {
        return bad("duplicate id");
    }
    let metrics: Vec<String> = edges.iter().filter(|c| c.starts_with("metric ")).map(|c| c[7..].to_string()).collect();
    let generating = match opt(p, "generating") {
        None => "none".to_string(),
        Some(g) => {
            let g = map(g)?;
            strict(g, &["nodes", "edges"])?;
            let nodes = list(req(g, "nodes")?, |v| match tagged(v, &[], &["meta"])? {
                (_, Some(c)) => {
                    let m = map(c)?;
                    loose(m, &["info", "id"])?;
                    // the blueprint lists more than is supported
                    if req(m, "info")? == &Value::from("CHLevel") {
                        return Err(Why::Open);
                    }
                    Ok(format!("meta {}", info_id(c, "info", &["NodeIdx"])?))
                }
                _ => unreachable!(),
            })?;
            let edges = list(req(g, "edges")?, generating_step)?;
            format!("nodes {:?} edges {:?}", nodes, edges)
        }
    };
    file_ext(&map_file, &["pbf", "fmi"])?;
    let s = format!(
        "{:?} {} picky={} nodes {:?} edges {:?} normalized={} metrics {:?} generating {}",
        map_file, category, picky, nodes, edges, normalized, metrics, generating
    );
    Ok((s, metrics.iter().map(|m| m.splitn(2, ' ').nth(1).unwrap().to_string()).collect()))
}

fn generating_step(v: &Value) -> R<String> {
    let (w, c) = tagged(v, &[], &["meta", "custom", "haversine", "copy", "convert", "calc", "merge"])?;
    let c = c.unwrap();
    let m = map(c)?;
    let unit_id = |v: &Value| info_id(v, "unit", &UNITS);
    Ok(match w.as_str() {
        "meta" => {
            loose(m, &["info", "id"])?;
            if [Value::from("ShortcutIdx0"), Value::from("ShortcutIdx1")].contains(req(m, "info")?) {
                return Err(Why::Open);
            }
            format!("meta {}", info_id(c, "info", &["EdgeId", "SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"])?)
        }
        "custom" => {
            loose(m, &["unit", "id", "default"])?;
            format!(
                "custom {} {} {:?}",
                or(opt(m, "unit"), |v| word(v, &UNITS), "F64".into())?,
                text(req(m, "id")?)?,
                or(opt(m, "default"), float, 0.0)?
            )
        }
        "haversine" => format!("haversine {}", unit_id(c)?),
        "copy" | "convert" => {
            loose(m, &["from", "to"])?;
            format!("{} {} {}", w, unit_id(req(m, "from")?)?, unit_id(req(m, "to")?)?)
        }
        "calc" => {
            loose(m, &["result", "a", "b"])?;
            format!("calc {} {} {}", unit_id(req(m, "result")?)?, unit_id(req(m, "a")?)?, unit_id(req(m, "b")?)?)
        }
        "merge" => {
            loose(m, &["from", "with_header-line", "edge-id", "edges-info"])?;
            format!(
                "merge {:?} header={} {} {:?}",
                path(req(m, "from")?)?,
                or(opt(m, "with_header-line"), boolean, true)?,
                text(req(m, "edge-id")?)?,
                ids(req(m, "edges-info")?)?
            )
        }
        _ => unreachable!(),
    })
}

fn ids(v: &Value) -> R<Vec<Option<String>>> {
    list(v, |v| match tagged(v, &["ignored"], &["id"])? {
        (_, None) => Ok(None),
        (_, Some(c)) => Ok(Some(text(c)?)),
    })
}

fn routing(doc: &Value, metrics: &[String]) -> R<String> {
    let r = map(req(map(doc)?, "routing")?)?;
    strict(r, &["route-pairs-file", "algorithm", "metrics"])?;
    let file = match opt(r, "route-pairs-file") {
        Some(v) => Some(path(v)?),
        None => None,
    };
    let algo = match tagged(req(r, "algorithm")?, &["Dijkstra", "CHDijkstra"], &["Explorator"])? {
        (w, None) => w,
        (_, Some(c)) => {
            let m = map(c)?;
            loose(m, &["algo"])?;
            format!("Explorator {}", word(req(m, "algo")?, &["Dijkstra", "CHDijkstra"])?)
        }
    };
    let mut alphas = vec![0.0; metrics.len()];
    let mut scales = vec![f64::INFINITY; metrics.len()];
    let entries = list(req(r, "metrics")?, |v| {
        let m = map(v)?;
        strict(m, &["id", "alpha", "tolerated-scale"])?;
        let id = text(req(m, "id")?)?;
        let i = match metrics.iter().position(|i| i == &id) {
            Some(i) => i,
            None => return bad(format!("unknown metric {}", id)),
        };
        let alpha = or(opt(m, "alpha"), float, 1.0)?;
        if alpha < 0.0 {
            return Err(Why::Open);
        }
        let scale = match opt(m, "tolerated-scale") {
            None => f64::INFINITY,
            Some(Value::Number(n)) => n.as_f64().unwrap(),
            Some(Value::String(s)) => match s.to_lowercase().as_str() {
                "inf" | "infinity" => f64::INFINITY,
                "" => return bad("no number"),
                _ => match s.parse::<f64>() {
                    Ok(f) => f,
                    Err(_) => return bad("no number"),
                },
            },
            Some(_) => return bad("no number"),
        };
        if !(scale >= 0.0) {
            return Err(Why::Open);
        }
        Ok((i, alpha, scale))
    })?;
    let mut seen = vec![];
    for (i, a, s) in entries {
        if seen.contains(&i) {
            return Err(Why::Open);
        }
        seen.push(i);
        alphas[i] = a;
        scales[i] = s;
    }
    Ok(format!("{:?} {} {:?} {:?}", file, algo, alphas, scales))
}

fn edges_info(e: &Mapping, file: &Path, header: bool) -> R<String> {
    Ok(format!(
        "{:?} shortcuts={} header={} denormalize={} {:?}",
        file,
        or(opt(e, "with_shortcuts"), boolean, false)?,
        header,
        or(opt(e, "will_denormalize_metrics_by_mean"), boolean, false)?,
        ids(req(e, "ids")?)?
    ))
}

fn writing_graph(doc: &Value) -> R<String> {
    let g = map(req(map(req(map(doc)?, "writing")?)?, "graph")?)?;
    strict(g, &["map-file", "nodes", "edges"])?;
    let file = path(req(g, "map-file")?)?;
    let nodes = ids(req(g, "nodes")?)?;
    let e = map(req(g, "edges")?)?;
    strict(e, &["with_shortcuts", "will_denormalize_metrics_by_mean", "ids"])?;
    let s = format!("{:?} nodes {:?} edges {}", file, nodes, edges_info(e, &file, false)?);
    file_ext(&file, &["fmi"])?;
    Ok(s)
}

fn edges_section(m: &Mapping) -> R<(String, PathBuf)> {
    let e = map(req(m, "edges-info")?)?;
    strict(e, &["file", "with_shortcuts", "will_denormalize_metrics_by_mean", "ids"])?;
    let file = path(req(e, "file")?)?;
    Ok((edges_info(e, &file, true)?, file))
}

fn writing_edges(doc: &Value) -> R<String> {
    let (s, file) = edges_section(map(req(map(doc)?, "writing")?)?)?;
    file_ext(&file, &["csv"])?;
    Ok(s)
}

fn writing_routes(doc: &Value) -> R<String> {
    let r = map(req(map(req(map(doc)?, "writing")?)?, "route-pairs")?)?;
    strict(r, &["file", "random_or_all"])?;
    let file = path(req(r, "file")?)?;
    let m = map(req(r, "random_or_all")?)?;
    loose(m, &["seed", "max_count"])?;
    let s = format!("{:?} {} {}", file, or(opt(m, "seed"), uint, 42)?, uint(req(m, "max_count")?)?);
    file_ext(&file, &["route-pairs"])?;
    Ok(s)
}

fn mchc(parent: &Mapping) -> R<String> {
    let m = map(req(parent, "multi-ch-constructor")?)?;
    strict(
        m,
        &[
            "fmi-graph",
            "contracted-graph",
            "dimension",
            "minimum-cost",
            "cost-accuracy",
            "contraction-ratio",
            "number_of_threads",
            "is_printing_osm-ids",
            "is_using_external_edge-ids",
        ],
    )?;
    or(opt(m, "minimum-cost"), float, 0.0)?;
    Ok(format!(
        "{:?} {:?} ratio={} dim={} accuracy={:?} threads={} osm={} external={}",
        path(req(m, "fmi-graph")?)?,
        path(req(m, "contracted-graph")?)?,
        or(opt(m, "contraction-ratio"), text, "99.8".into())?,
        uint(req(m, "dimension")?)?,
        or(opt(m, "cost-accuracy"), float, 0.0001)?,
        or(opt(m, "number_of_threads"), uint, 4)?,
        boolean(req(m, "is_printing_osm-ids")?)?,
        boolean(req(m, "is_using_external_edge-ids")?)?
    ))
}

fn monitoring(m: &Mapping) -> R<String> {
    let m = map(req(m, "monitoring")?)?;
    strict(m, &["edges-info", "export_vehicles_for_SMARTS"])?;
    Ok(format!("smarts={} {}", or(opt(m, "export_vehicles_for_SMARTS"), boolean, false)?, edges_section(m)?.0))
}

fn balancing(doc: &Value) -> R<String> {
    let b = map(req(map(doc)?, "balancing")?)?;
    strict(
        b,
        &[
            "seed",
            "number_of_threads",
            "results-dir",
            "iter-0-cfg",
            "iter-i-cfg",
            "optimizing_with",
            "number_of_metric-updates",
            "min_new_metric",
            "multi-ch-constructor",
            "monitoring",
            "throw_err_when_new_metric_is_zero",
        ],
    )?;
    let o = map(req(b, "optimizing_with")?)?;
    strict(o, &["metric-id", "method"])?;
    let method = match tagged(req(o, "method")?, &["averaging"], &["explicit_euler"])? {
        (w, None) => w,
        (w, Some(c)) => {
            let m = map(c)?;
            loose(m, &["correction"])?;
            format!("{} {:?}", w, float(req(m, "correction")?)?)
        }
    };
    Ok(format!(
        "seed={} threads={} {:?} {:?} {:?} {} {} iter={} min={:?} throw={} [{}] [{}]",
        or(opt(b, "seed"), uint, 42)?,
        or(opt(b, "number_of_threads"), uint, 4)?,
        path(req(b, "results-dir")?)?,
        path(req(b, "iter-0-cfg")?)?,
        path(req(b, "iter-i-cfg")?)?,
        text(req(o, "metric-id")?)?,
        method,
        uint(req(b, "number_of_metric-updates")?)?.checked_add(1).ok_or(Why::Open)?,
        match opt(b, "min_new_metric") {
            Some(v) => Some(float(v)?),
            None => None,
        },
        or(opt(b, "throw_err_when_new_metric_is_zero"), boolean, true)?,
        mchc(b)?,
        monitoring(b)?
    ))
}

fn evaluating(doc: &Value) -> R<String> {
    let e = map(req(map(doc)?, "evaluating_balance")?)?;
    strict(e, &["seed", "results-dir", "monitoring", "number_of_threads"])?;
    Ok(format!(
        "seed={} threads={} {:?} [{}]",
        or(opt(e, "seed"), uint, 42)?,
        or(opt(e, "number_of_threads"), uint, 4)?,
        path(req(e, "results-dir")?)?,
        monitoring(e)?
    ))
}

//------------------------------------------------------------------------------------------------//
// the same from the code's configs

fn obs_ids(ids: &[Option<configs::SimpleId>]) -> Vec<Option<String>> {
    ids.iter().map(|i| i.as_ref().map(|i| i.0.clone())).collect()
}

fn obs_parsing(c: &configs::parsing::Config) -> Result<String, String> {
    use configs::parsing::{edges, generating as gen, nodes};
    let ns: Vec<String> = c
        .nodes
        .categories
        .iter()
        .map(|n| match n {
            nodes::Category::Meta { info, id } => format!("meta {:?} {}", info, id),
            nodes::Category::Metric { unit, id } => format!("metric {:?} {}", unit, id),
            nodes::Category::Ignored => "ignored".into(),
        })
        .collect();
    let es: Vec<String> = c
        .edges
        .categories
        .iter()
        .map(|n| match n {
            edges::Category::Meta { info, id } => format!("meta {:?} {}", info, id),
            edges::Category::Metric { unit, id } => format!("metric {:?} {}", unit, id),
            edges::Category::Ignored => "ignored".into(),
        })
        .collect();
    let m = &c.edges.metrics;
    if m.units.len() != m.ids.len() {
        return Err(format!("{} units and {} ids of metrics", m.units.len(), m.ids.len()));
    }
    let ms: Vec<String> = m.units.iter().zip(&m.ids).map(|(u, i)| format!("{:?} {}", u, i)).collect();
    for (i, id) in m.ids.iter().enumerate() {
        match m.try_idx_of(id) {
            Ok(idx) if *idx == i => (),
            other => return Err(format!("metric {} has index {:?}, expected {}", id, other.map(|i| *i), i)),
        }
    }
    if m.try_idx_of("no such id").is_ok() {
        return Err("an index of an unknown metric".into());
    }
    let ui = |c: &gen::edges::metrics::Category| format!("{:?} {}", c.unit, c.id);
    let g = match &c.generating {
        None => "none".to_string(),
        Some(g) => {
            let ns: Vec<String> = g
                .nodes
                .categories
                .iter()
                .map(|n| match n {
                    gen::nodes::Category::Meta { info, id } => format!("meta {:?} {}", info, id),
                })
                .collect();
            let es: Vec<String> = g
                .edges
                .categories
                .iter()
                .map(|e| match e {
                    gen::edges::Category::Meta { info, id } => format!("meta {:?} {}", info, id),
                    gen::edges::Category::Custom { unit, id, default } => format!("custom {:?} {} {:?}", unit, id, default),
                    gen::edges::Category::Haversine { unit, id } => format!("haversine {:?} {}", unit, id),
                    gen::edges::Category::Copy { from, to } => format!("copy {} {}", ui(from), ui(to)),
                    gen::edges::Category::Convert { from, to } => format!("convert {} {}", ui(from), ui(to)),
                    gen::edges::Category::Calc { result, a, b } => format!("calc {} {} {}", ui(result), ui(a), ui(b)),
                    gen::edges::Category::Merge {
                        from,
                        is_file_with_header,
                        edge_id,
                        edges_info,
                    } => {
                        let infos: Vec<Option<String>> = edges_info
                            .iter()
                            .map(|c| match c {
                                gen::edges::merge::Category::Id(id) => Some(id.0.clone()),
                                gen::edges::merge::Category::Ignored => None,
                            })
                            .collect();
                        format!("merge {:?} header={} {} {:?}", from, is_file_with_header, edge_id, infos)
                    }
                })
                .collect();
            format!("nodes {:?} edges {:?}", ns, es)
        }
    };
    Ok(format!(
        "{:?} {:?} picky={} nodes {:?} edges {:?} normalized={} metrics {:?} generating {}",
        c.map_file, c.vehicles.category, c.vehicles.are_drivers_picky, ns, es, m.are_normalized, ms, g
    ))
}

fn obs_routing(c: &configs::routing::Config) -> String {
    use configs::routing::{ExploratorAlgo, RoutingAlgo};
    let algo = match c.routing_algo {
        RoutingAlgo::Dijkstra => "Dijkstra",
        RoutingAlgo::CHDijkstra => "CHDijkstra",
        RoutingAlgo::Explorator { algo: ExploratorAlgo::Dijkstra } => "Explorator Dijkstra",
        RoutingAlgo::Explorator { algo: ExploratorAlgo::CHDijkstra } => "Explorator CHDijkstra",
    };
    format!("{:?} {} {:?} {:?}", c.route_pairs_file, algo, c.alphas.to_vec(), c.tolerated_scales.to_vec())
}

fn obs_edges(c: &configs::writing::network::edges::Config) -> String {
    format!(
        "{:?} shortcuts={} header={} denormalize={} {:?}",
        c.file,
        c.is_writing_shortcuts,
        c.is_writing_header,
        c.is_denormalizing,
        obs_ids(&c.ids)
    )
}

fn obs_graph(c: &configs::writing::network::graph::Config) -> String {
    format!("{:?} nodes {:?} edges {}", c.map_file, obs_ids(&c.nodes.ids), obs_edges(&c.edges))
}

fn obs_routes(c: &configs::writing::routing::Config) -> String {
    let configs::writing::routing::Category::RandomOrAll { seed, max_count } = c.category;
    format!("{:?} {} {}", c.file, seed, max_count)
}

fn obs_mchc(c: &multi_ch_constructor::Config) -> String {
    format!(
        "{:?} {:?} ratio={} dim={} accuracy={:?} threads={} osm={} external={}",
        c.fmi_graph, c.ch_fmi_graph, c.contraction_ratio, c.dim, c.cost_accuracy, c.num_threads, c.is_printing_osm_ids, c.is_using_external_edge_ids
    )
}

fn obs_monitoring(c: &configs::balancing::MonitoringConfig) -> String {
    format!("smarts={} {}", c.is_writing_for_smarts, obs_edges(&c.edges_info))
}

fn obs_balancing(c: &configs::balancing::Config) -> String {
    use configs::balancing::OptimizationMethod::*;
    format!(
        "seed={} threads={} {:?} {:?} {:?} {} {} iter={} min={:?} throw={} [{}] [{}]",
        c.seed,
        c.num_threads,
        c.results_dir,
        c.iter_0_cfg,
        c.iter_i_cfg,
        c.optimization.metric_id,
        match c.optimization.method {
            Averaging => "averaging".to_string(),
            ExplicitEuler { correction } => format!("explicit_euler {:?}", correction),
        },
        c.num_iter,
        c.min_new_metric,
        c.is_err_when_metric_is_zero,
        obs_mchc(&c.multi_ch_constructor),
        obs_monitoring(&c.monitoring)
    )
}

fn obs_evaluating(c: &configs::evaluating_balance::Config) -> String {
    format!("seed={} threads={} {:?} [{}]", c.seed, c.num_threads, c.results_dir, obs_monitoring(&c.monitoring))
}

//------------------------------------------------------------------------------------------------//

const KINDS: [&str; 8] = ["parsing", "routing", "writing-graph", "writing-edges", "writing-routes", "balancing", "evaluating", "multi-ch"];

struct World {
    file: PathBuf,
    /// for routing if the file's own parsing-config is refused
    parsing: configs::parsing::Config,
    metrics: Vec<String>,
}

/// Reads one kind of config from the file.
fn read(kind: usize, w: &World, p: &Path, s: &str, pcfg: &configs::parsing::Config) -> Result<Result<String, String>, String> {
    fn flat<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>, f: impl Fn(&T) -> String, from_str: Option<Result<Result<T, E>, String>>) -> Result<Result<String, String>, String> {
        let show = |r: Result<Result<T, E>, String>| -> Result<Result<String, String>, String> {
            match r {
                Ok(Ok(c)) => Ok(Ok(f(&c))),
                Ok(Err(e)) => Ok(Err(e.to_string())),
                // the yaml-library panics for an empty mapping in place of a word
                Err(p) => Ok(Err(p)),
            }
        };
        let a = show(r)?;
        if let Some(b) = from_str {
            let b = show(b)?;
            match (&a, &b) {
                (Ok(x), Ok(y)) if x == y => (),
                (Err(_), Err(_)) => (),
                _ => return Err(format!("from file: {:?}\nfrom text: {:?}", a, b)),
            }
        }
        Ok(a)
    }
    let _ = w;
    match kind {
        0 => match guard(|| configs::parsing::Config::try_from_yaml(p)) {
            Ok(Ok(c)) => obs_parsing(&c).map(Ok),
            Ok(Err(e)) => Ok(Err(e.to_string())),
            Err(p) => Ok(Err(p)),
        },
        1 => flat(
            guard(|| configs::routing::Config::try_from_yaml(p, pcfg)),
            obs_routing,
            Some(guard(|| configs::routing::Config::try_from_str(s, pcfg))),
        ),
        2 => flat(guard(|| configs::writing::network::graph::Config::try_from_yaml(p)), obs_graph, None),
        3 => flat(guard(|| configs::writing::network::edges::Config::try_from_yaml(p)), obs_edges, None),
        4 => flat(guard(|| configs::writing::routing::Config::try_from_yaml(p)), obs_routes, None),
        5 => flat(
            guard(|| configs::balancing::Config::try_from_yaml(p)),
            obs_balancing,
            Some(guard(|| configs::balancing::Config::try_from_str(s))),
        ),
        6 => flat(
            guard(|| configs::evaluating_balance::Config::try_from_yaml(p)),
            obs_evaluating,
            Some(guard(|| configs::evaluating_balance::Config::try_from_str(s))),
        ),
        7 => flat(
            guard(|| multi_ch_constructor::Config::try_from_yaml(p)),
            obs_mchc,
            Some(guard(|| multi_ch_constructor::Config::try_from_str(s))),
        ),
        _ => unreachable!(),
    }
}

fn judge(text: &str, kinds: &[usize], w: &World, l: &mut Local) -> Verdict {
    let doc: Option<Value> = serde_yaml::from_str(text).ok();
    fs::write(&w.file, text).unwrap();
    let mut own = None;
    for &k in kinds {
        l.step(1);
        let want = match &doc {
            // e.g. several documents or aliases
            None => bad("no yaml"),
            Some(d) => match k {
                0 => parsing(d).map(|(s, m)| {
                    own = Some(m);
                    s
                }),
                1 => match (&own, kinds.contains(&0)) {
                    (Some(m), _) => routing(d, m),
                    (None, _) => routing(d, &w.metrics),
                },
                2 => writing_graph(d),
                3 => writing_edges(d),
                4 => writing_routes(d),
                5 => balancing(d),
                6 => evaluating(d),
                7 => map(d).and_then(mchc),
                _ => unreachable!(),
            },
        };
        let pcfg = match k == 1 && own.is_some() {
            true => match guard(|| configs::parsing::Config::try_from_yaml(&w.file)) {
                Ok(Ok(c)) => c,
                _ => w.parsing.clone(),
            },
            false => w.parsing.clone(),
        };
        let got = read(k, w, &w.file, text, &pcfg).map_err(|m| format!("{}: {}\n{}", KINDS[k], m, text))?;
        l.eval(1);
        match (want, got) {
            (Err(Why::Open), g) => l.outcome(&(k, g.is_ok())),
            (Ok(s), Ok(g)) if s == g => l.outcome(&(k, s)),
            (Err(Why::Bad(b)), Err(_)) => l.outcome(&(k, b)),
            (Ok(s), g) => return Err(format!("{}: expected {}\ngot {:?}\n{}", KINDS[k], s, g, text)),
            (Err(Why::Bad(b)), Ok(g)) => return Err(format!("{}: expected a refusal ({})\ngot {}\n{}", KINDS[k], b, g, text)),
        }
    }
    l.validated += 1;
    Ok(())
}

const PARSING: &str = "parsing:
  map-file: some/net.fmi
  vehicles:
    category: Bicycle
    are_drivers_picky: false
  nodes:
  - meta: { info: NodeId, id: node-id }
  - ignored
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  - meta: { info: CHLevel, id: level }
  edges:
    will_normalize_metrics_by_mean: true
    data:
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: ShortcutIdx0, id: sc0 }
    - meta: { info: ShortcutIdx1, id: sc1 }
    - metric: { unit: Kilometers, id: km }
    - ignored
    - metric: { unit: KilometersPerHour, id: kmph }
    - metric: { unit: LaneCount, id: lanes }
";
const GENERATING: &str = "  generating:
    nodes:
    - meta: { info: NodeIdx, id: node-idx }
    edges:
    - meta: { info: SrcIdx, id: src-idx }
    - meta: { info: DstLat, id: dst-lat }
    - haversine: { unit: Meters, id: air }
    - copy: { from: { unit: Kilometers, id: km }, to: { unit: Meters, id: m } }
    - convert: { from: { unit: Meters, id: m }, to: { unit: Kilometers, id: km2 } }
    - calc: { result: { unit: Hours, id: h }, a: { unit: Kilometers, id: km }, b: { unit: KilometersPerHour, id: kmph } }
    - custom: { unit: Seconds, id: w, default: 2.5 }
    - merge: { from: more.csv, with_header-line: false, edge-id: edge-id, edges-info: [ { id: edge-id }, ignored, { id: w } ] }
";
const ROUTING: &str = "routing:
  route-pairs-file: some.route-pairs
  algorithm: { Explorator: { algo: CHDijkstra } }
  metrics:
  - { id: kmph, alpha: 2.5, tolerated-scale: 1.25 }
  - { id: km, alpha: 0, tolerated-scale: inf }
";
const WRITING: &str = "writing:
  graph:
    map-file: out.fmi
    nodes: [ { id: node-id }, ignored, { id: lat } ]
    edges:
      with_shortcuts: true
      will_denormalize_metrics_by_mean: true
      ids: [ { id: src-id }, ignored, { id: km } ]
  edges-info:
    file: out.csv
    with_shortcuts: true
    will_denormalize_metrics_by_mean: true
    ids: [ { id: edge-id }, ignored ]
  route-pairs:
    file: out.route-pairs
    random_or_all: { seed: 7, max_count: 100 }
";
const BALANCING: &str = "balancing:
  seed: 5
  number_of_threads: 3
  results-dir: results
  iter-0-cfg: first.yaml
  iter-i-cfg: next.yaml
  optimizing_with:
    metric-id: work
    method: { explicit_euler: { correction: 0.5 } }
  number_of_metric-updates: 2
  min_new_metric: 0.125
  multi-ch-constructor:
    fmi-graph: g.fmi
    contracted-graph: g.ch.fmi
    dimension: 3
    minimum-cost: 0.5
    cost-accuracy: 0.25
    contraction-ratio: half
    number_of_threads: 2
    is_printing_osm-ids: true
    is_using_external_edge-ids: false
  monitoring:
    export_vehicles_for_SMARTS: true
    edges-info: { file: edges.csv, with_shortcuts: true, will_denormalize_metrics_by_mean: true, ids: [ { id: edge-id } ] }
  throw_err_when_new_metric_is_zero: false
";
const EVALUATING: &str = "evaluating_balance:
  seed: 6
  number_of_threads: 2
  results-dir: where
  monitoring:
    export_vehicles_for_SMARTS: true
    edges-info: { file: edges.csv, with_shortcuts: true, ids: [ { id: edge-id }, ignored ] }
";
const MCHC: &str = "multi-ch-constructor:
  fmi-graph: a.fmi
  contracted-graph: b.fmi
  dimension: 4
  minimum-cost: 0.5
  cost-accuracy: 0.25
  contraction-ratio: '50.0'
  number_of_threads: 2
  is_printing_osm-ids: false
  is_using_external_edge-ids: true
";

fn tree(s: &str) -> Value {
    serde_yaml::from_str(s).unwrap_or_else(|e| panic!("harness yaml: {}\n{}", e, s))
}

/// block style
fn block(v: &Value) -> String {
    serde_yaml::to_string(v).unwrap()
}

/// flow style, all texts quoted
fn flow(v: &Value) -> String {
    match v {
        Value::Mapping(m) => format!("{{ {} }}", m.iter().map(|(k, v)| format!("{}: {}", flow(k), flow(v))).collect::<Vec<_>>().join(", ")),
        Value::Sequence(s) => format!("[ {} ]", s.iter().map(flow).collect::<Vec<_>>().join(", ")),
        Value::String(s) => format!("\"{}\"", s),
        Value::Null => "~".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => n.to_string(),
    }
}

type At = Vec<usize>;

fn places(v: &Value, at: At, out: &mut Vec<At>) {
    out.push(at.clone());
    let kids: Vec<&Value> = match v {
        Value::Mapping(m) => m.iter().map(|(_, v)| v).collect(),
        Value::Sequence(s) => s.iter().collect(),
        _ => vec![],
    };
    for (i, k) in kids.iter().enumerate() {
        let mut a = at.clone();
        a.push(i);
        places(k, a, out);
    }
}

fn at<'a>(v: &'a Value, p: &[usize]) -> &'a Value {
    match p.split_first() {
        None => v,
        Some((&i, rest)) => at(
            match v {
                Value::Mapping(m) => m.iter().nth(i).unwrap().1,
                Value::Sequence(s) => &s[i],
                _ => unreachable!(),
            },
            rest,
        ),
    }
}

#[derive(Clone, Debug)]
enum Edit {
    Remove,
    Set(Value),
    Rename(String),
    Add(&'static str),
    Twice,
    SwapNext,
    Reverse,
}

fn edited(v: &Value, p: &[usize], e: &Edit) -> Value {
    if p.is_empty() {
        return match (e, v) {
            (Edit::Set(n), _) => n.clone(),
            (Edit::Add(k), Value::Mapping(m)) => {
                let mut m = m.clone();
                m.insert(Value::from(*k), Value::from(1));
                Value::Mapping(m)
            }
            (Edit::Reverse, Value::Mapping(m)) => {
                let mut items: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                items.reverse();
                Value::Mapping(items.into_iter().collect())
            }
            (Edit::Reverse, Value::Sequence(s)) => Value::Sequence(s.iter().rev().cloned().collect()),
            _ => v.clone(),
        };
    }
    let last = p.len() == 1;
    match v {
        Value::Mapping(m) => {
            let mut out = Mapping::new();
            for (i, (k, c)) in m.iter().enumerate() {
                if i != p[0] {
                    out.insert(k.clone(), c.clone());
                    continue;
                }
                match e {
                    Edit::Remove if last => (),
                    Edit::Rename(n) if last => {
                        out.insert(Value::from(n.as_str()), c.clone());
                    }
                    _ => {
                        out.insert(k.clone(), edited(c, &p[1..], e));
                    }
                }
            }
            Value::Mapping(out)
        }
        Value::Sequence(s) => {
            let mut out = vec![];
            for (i, c) in s.iter().enumerate() {
                if i != p[0] {
                    out.push(c.clone());
                    continue;
                }
                match e {
                    Edit::Remove if last => (),
                    Edit::Twice if last => out.extend(vec![c.clone(), c.clone()]),
                    _ => out.push(edited(c, &p[1..], e)),
                }
            }
            if let (true, Edit::SwapNext) = (last, e) {
                if p[0] + 1 < out.len() {
                    out.swap(p[0], p[0] + 1);
                }
            }
            Value::Sequence(out)
        }
        _ => unreachable!(),
    }
}

fn edits(doc: &Value, menu: &[Value], words: &[Value], all: bool) -> Vec<(At, Edit)> {
    let mut ps = vec![];
    places(doc, vec![], &mut ps);
    let mut out = vec![];
    for p in ps {
        let here = at(doc, &p);
        if !p.is_empty() {
            out.push((p.clone(), Edit::Remove));
            let parent = at(doc, &p[..p.len() - 1]);
            if let Value::Mapping(m) = parent {
                let k = m.iter().nth(p[p.len() - 1]).unwrap().0.as_str().unwrap().to_string();
                out.push((p.clone(), Edit::Rename(format!("{}x", k))));
                if all {
                    for n in [k.replace('-', "_"), k.replace('_', "-"), k.to_uppercase(), k[..k.len() - 1].to_string()] {
                        if n != k {
                            out.push((p.clone(), Edit::Rename(n)));
                        }
                    }
                }
            } else {
                out.push((p.clone(), Edit::Twice));
                out.push((p.clone(), Edit::SwapNext));
            }
        }
        for m in menu {
            if m != here {
                out.push((p.clone(), Edit::Set(m.clone())));
            }
        }
        match here {
            Value::String(_) => {
                for w in words {
                    if w != here {
                        out.push((p.clone(), Edit::Set(w.clone())));
                    }
                }
            }
            Value::Mapping(_) => {
                out.push((p.clone(), Edit::Add("more")));
                out.push((p.clone(), Edit::Reverse));
            }
            Value::Sequence(_) => out.push((p.clone(), Edit::Reverse)),
            _ => (),
        }
    }
    out
}

fn words_of(doc: &Value) -> Vec<Value> {
    let mut ps = vec![];
    places(doc, vec![], &mut ps);
    let mut out: Vec<Value> = vec![];
    for p in ps {
        let here = at(doc, &p);
        if here.is_string() && !out.contains(here) {
            out.push(here.clone());
        }
    }
    out
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let full = [PARSING, GENERATING, ROUTING, WRITING, BALANCING, EVALUATING, MCHC].concat();
    let base = tree(&full);
    let base_file = dir.join("base.yaml");
    fs::write(&base_file, &full).unwrap();
    let base_parsing = match guard(|| configs::parsing::Config::try_from_yaml(&base_file)) {
        Ok(Ok(c)) => c,
        other => {
            let m = format!("the config of the harness is refused: {:?}\n{}", other.map(|r| r.map(|_| ())), full);
            c.family("base", "the config with all sections", 1, |_, _| Err(m.clone()));
            return;
        }
    };
    let base_metrics = parsing(&base).unwrap_or_else(|e| panic!("harness: {:?}", e)).1;
    let world = |l: &Local| World {
        file: dir.join(format!("{}.yaml", l.worker)),
        parsing: base_parsing.clone(),
        metrics: base_metrics.clone(),
    };
    let all: Vec<usize> = (0..KINDS.len()).collect();

    // sections, each in both styles
    let sections: Vec<(String, Vec<usize>)> = vec![
        (PARSING.to_string(), vec![0]),
        ([PARSING, GENERATING].concat(), vec![0]),
        ([PARSING, ROUTING].concat(), vec![0, 1]),
        (ROUTING.to_string(), vec![1]),
        (WRITING.to_string(), vec![2, 3, 4]),
        (BALANCING.to_string(), vec![5]),
        (EVALUATING.to_string(), vec![6]),
        (MCHC.to_string(), vec![7]),
        (full.clone(), all.clone()),
    ];
    c.family("sections", "all subsets of the sections in one file x all configs x both styles", 2 * 64, |i, l| {
        let mut d = Dig(i);
        let fl = d.take(2) == 1;
        let mask = d.take(64);
        let mut s = String::new();
        for (k, t) in [[PARSING, GENERATING].concat(), ROUTING.into(), WRITING.into(), BALANCING.into(), EVALUATING.into(), MCHC.into()].iter().enumerate() {
            if mask >> k & 1 == 1 {
                s += t;
            }
        }
        if fl && !s.is_empty() {
            s = flow(&tree(&s));
        }
        judge(&s, &all, &world(l), l)
    });
    let numbers = |v: &[f64]| -> Vec<Value> { v.iter().map(|&f| Value::from(f)).collect() };
    let mut menu = vec![
        Value::Null,
        Value::from(true),
        Value::from(false),
        Value::from(-1),
        Value::from(0),
        Value::from(7),
        Value::from(u64::max_value()),
        Value::from("x"),
        Value::from(""),
        Value::from("inf"),
        Value::from("Infinity"),
        Value::from("true"),
        Value::from("Ignored"),
        Value::from("dijkstra"),
        Value::Sequence(vec![]),
        Value::Mapping(Mapping::new()),
        Value::Sequence(vec![Value::from("ignored")]),
    ];
    menu.extend(numbers(&[0.5, 1.0, -0.25, 1e300]));
    let more: Vec<Value> = ["a.pbf", "a.PBF", "a.Fmi", "a.b/fmi", ".fmi", "a.osm.pbf", "a.csv", "a.CSV", "a.txt", "a", "a.", "a.route-pairs", "Car", "Pedestrian", "Meters", "Minutes", "Hours", "F64", "Height", "DstIdx", "SrcLat", "SrcLon", "DstLon", "Dijkstra", "averaging", "1.5", "1e3"]
        .iter()
        .map(|s| Value::from(*s))
        .collect();
    let mut words = words_of(&base);
    words.extend(more);
    let singles = edits(&base, &menu, &words, true);
    c.family("edits", "all single edits of the config with all sections (removed, renamed, added, repeated, swapped, reversed, replaced by any word of the configs or any kind of value) x all configs x both styles", 2 * singles.len() as u64, |i, l| {
        let mut d = Dig(i);
        let fl = d.take(2) == 1;
        let (p, e) = &singles[d.take(singles.len() as u64) as usize];
        let v = edited(&base, p, e);
        let s = if fl { flow(&v) } else { block(&v) };
        judge(&s, &all, &world(l), l).map_err(|m| format!("{:?} at {:?}: {}", e, p, m))
    });
    // pairs of edits in each section
    let small = [Value::Null, Value::from(true), Value::from(7), Value::from("x"), Value::Sequence(vec![]), Value::Mapping(Mapping::new())];
    let few = c.pick(&small[..3], &small[..]);
    let firsts: Vec<(usize, Value)> = (0..sections.len() - 1)
        .filter(|&k| k != 1 || !c.quick())
        .flat_map(|k| {
            let b = tree(&sections[k].0);
            edits(&b, few, &[], false).into_iter().map(|(p, e)| (k, edited(&b, &p, &e))).collect::<Vec<_>>()
        })
        .collect();
    c.family("two-edits", "all pairs of edits of each section", firsts.len() as u64, |i, l| {
        let (k, v) = &firsts[i as usize];
        let w = world(l);
        for (p, e) in edits(v, few, &[], false) {
            judge(&block(&edited(v, &p, &e)), &sections[*k].1, &w, l)?;
        }
        Ok(())
    });
    let cuts: Vec<(usize, usize)> = (0..sections.len()).flat_map(|k| (0..=sections[k].0.len()).map(move |n| (k, n)).collect::<Vec<_>>()).collect();
    c.family("cuts", "the text of each section cut at every byte", cuts.len() as u64, |i, l| {
        let (k, n) = cuts[i as usize];
        judge(&sections[k].0[..n], &sections[k].1, &world(l), l)
    });
    // all lists of metrics in routing
    let forms: Vec<String> = {
        let mut f = vec![];
        for id in ["km", "kmph", "lanes", "edge-id", "zz"] {
            for a in ["", ", alpha: 0", ", alpha: 2.5"] {
                for t in ["", ", tolerated-scale: 1.25", ", tolerated-scale: INF", ", tolerated-scale: '3'", ", tolerated-scale: much"] {
                    f.push(format!("  - {{ id: {}{}{} }}\n", id, a, t));
                }
            }
        }
        f
    };
    let algos = ["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }", "{ Explorator: { algo: CHDijkstra } }", "AStar"];
    let n = forms.len() as u64;
    let depth = c.pick(2, 3);
    c.family("routing", "all lists of up to 2 (thorough: 3) of 75 metric-entries x algorithm x route-pairs-file", 2 * 5 * (0..=depth).map(|k| pow(n, k)).sum::<u64>(), |i, l| {
        let mut d = Dig(i);
        let file = d.take(2) == 1;
        let algo = algos[d.take(5) as usize];
        let (mut i, mut k) = (d.0, 0);
        while i >= pow(n, k) {
            i -= pow(n, k);
            k += 1;
        }
        let mut d = Dig(i);
        let mut s = format!("routing:\n  algorithm: {}\n", algo);
        if file {
            s += "  route-pairs-file: 'a b.route-pairs'\n";
        }
        s += if k == 0 { "  metrics: []\n" } else { "  metrics:\n" };
        for _ in 0..k {
            s += &forms[d.take(n) as usize];
        }
        judge(&s, &[1], &world(l), l)
    });
    // all lists of columns
    let cols: Vec<String> = {
        let mut f = vec!["ignored".to_string()];
        for i in ["EdgeId", "SrcId", "DstId", "ShortcutIdx0", "ShortcutIdx1", "SrcIdx", "NodeId"] {
            f.push(format!("meta: {{ info: {}, id: a }}", i));
        }
        for u in UNITS.iter().chain(&["Latitude"]) {
            for i in ["a", "b"] {
                f.push(format!("metric: {{ unit: {}, id: {} }}", u, i));
            }
        }
        for u in ["Meters", "F64"] {
            f.push(format!("metric: {{ unit: {}, id: c }}", u));
        }
        f
    };
    let n = cols.len() as u64;
    let depth = c.pick(3, 4);
    c.family("columns", "all lists of up to 3 (thorough: 4) of 28 edge-columns x normalization", 3 * (0..=depth).map(|k| pow(n, k)).sum::<u64>(), |i, l| {
        let mut d = Dig(i);
        let norm = ["", "    will_normalize_metrics_by_mean: true\n", "    will_normalize_metrics_by_mean: false\n"][d.take(3) as usize];
        let (mut i, mut k) = (d.0, 0);
        while i >= pow(n, k) {
            i -= pow(n, k);
            k += 1;
        }
        let mut d = Dig(i);
        let mut s = format!("parsing:\n  map-file: n.fmi\n  nodes: []\n  edges:\n{}", norm);
        s += if k == 0 { "    data: []\n" } else { "    data:\n" };
        for _ in 0..k {
            s += &format!("    - {}\n", cols[d.take(n) as usize]);
        }
        judge(&s, &[0], &world(l), l)
    });
    // all options of the balancer
    c.family("balancing", "all subsets of the optional keys, with both methods, all boolean values", 3 * pow(3, 3) * pow(2, 7), |i, l| {
        let mut d = Dig(i);
        let method = ["averaging", "{ explicit_euler: { correction: 0.25 } }", "{ explicit_euler: { correction: -3 } }"][d.take(3) as usize];
        let tri = |d: &mut Dig, k: &str| match d.take(3) {
            0 => String::new(),
            1 => format!("{}: true\n", k),
            _ => format!("{}: false\n", k),
        };
        let mut s = format!("balancing:\n  results-dir: r\n  iter-0-cfg: a\n  iter-i-cfg: b\n  number_of_metric-updates: 0\n  optimizing_with: {{ metric-id: w, method: {} }}\n", method);
        let t = tri(&mut d, "throw_err_when_new_metric_is_zero");
        if !t.is_empty() {
            s += &format!("  {}", t);
        }
        let smarts = tri(&mut d, "export_vehicles_for_SMARTS");
        let short = tri(&mut d, "with_shortcuts");
        for k in ["seed: 1", "number_of_threads: 9", "min_new_metric: 0.5"] {
            if d.take(2) == 1 {
                s += &format!("  {}\n", k);
            }
        }
        s += "  multi-ch-constructor:\n    fmi-graph: f\n    contracted-graph: g\n    dimension: 1\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: false\n";
        for k in ["minimum-cost: 2", "cost-accuracy: 3", "contraction-ratio: x", "number_of_threads: 8"] {
            if d.take(2) == 1 {
                s += &format!("    {}\n", k);
            }
        }
        s += "  monitoring:\n";
        if !smarts.is_empty() {
            s += &format!("    {}", smarts);
        }
        s += "    edges-info:\n      file: e.csv\n      ids: [ ignored ]\n";
        if !short.is_empty() {
            s += &format!("      {}", short);
        }
        judge(&s, &[5], &world(l), l)
    });
    // names of files
    let names = ["a.yaml", "a.YAML", "a.Yaml", "a.b.yaml", "a.yml", "a", ".yaml", "a.yaml.bak", "yaml", "a.fmi", "a.yaml ", "d.yaml/", "missing.yaml"];
    let kinds = KINDS.len() as u64;
    c.family("file-names", "names of files x all configs", kinds * names.len() as u64, |i, l| {
        let mut d = Dig(i);
        let k = d.take(kinds) as usize;
        let name = names[d.take(names.len() as u64) as usize];
        let sub = dir.join(format!("names-{}", l.worker));
        fs::create_dir_all(&sub).unwrap();
        let p = sub.join(name);
        if name.ends_with('/') {
            fs::create_dir_all(&p).unwrap();
        } else if !name.starts_with("missing") {
            fs::write(&p, &full).unwrap();
        }
        let w = world(l);
        let ok = ["a.yaml", "a.YAML", "a.Yaml", "a.b.yaml"].contains(&name);
        l.step(1);
        l.eval(1);
        let got = read(k, &w, &p, if ok { &full } else { "" }, &w.parsing).map_err(|m| format!("{} from {}: {}", KINDS[k], name, m))?;
        fs::remove_dir_all(&sub).unwrap();
        if got.is_ok() != ok {
            return Err(format!("{} from a file named {:?}: {:?}", KINDS[k], name, got));
        }
        l.outcome(&(k, ok));
        Ok(())
    });
}
