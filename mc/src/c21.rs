//! C21: the balancer's pipeline of iterations, around an external tool.
use crate::{
    c20::{arcs, csv, small_map, vehicles, Arc5},
    cli::{self, Bin, Files},
    engine::{pow, Ctx, Dig, Local, Verdict},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write,
    os::unix::fs::symlink,
    path::Path,
};

pub const TOOL: &str = "externals/multi-ch-constructor";

//------------------------------------------------------------------------------------------------//
// stand-ins of cmake and of the external tool, this very program is called by their names

/// Is this a call as a stand-in?
pub fn stand_in() -> Option<i32> {
    let args: Vec<String> = std::env::args().collect();
    let name = Path::new(&args[0]).file_name()?.to_string_lossy().into_owned();
    match name.as_str() {
        "cmake" => Some(play(".", &name, &args[1..])),
        "multi-ch" => Some(play(TOOL, &name, &args[1..])),
        _ => None,
    }
}

fn play(home: &str, name: &str, args: &[String]) -> i32 {
    let log = format!("{}/calls.log", home);
    let before = fs::read_to_string(&log).unwrap_or_default().lines().count();
    let mut f = fs::OpenOptions::new().create(true).append(true).open(&log).expect("calls.log");
    writeln!(f, "{}|{}", name, args.join("|")).expect("calls.log");
    let plan = fs::read_to_string(format!("{}/plan", home)).unwrap_or_default();
    let mut w = plan.split_whitespace();
    let (mode, at) = (w.next().unwrap_or("plain").to_string(), w.next().and_then(|s| s.parse::<usize>().ok()));
    let now = at == Some(before);
    if mode == "fail" && now {
        return 1;
    }
    if name == "cmake" {
        if args[0] == "-Bbuild" {
            let dim = args.iter().find_map(|a| a.strip_prefix("GRAPH_DIM=")).unwrap_or("?");
            fs::write(format!("{}/build/configured", home), dim).expect("configured");
        } else {
            fs::copy(format!("{}/build/configured", home), format!("{}/build/built", home)).expect("built");
        }
        return 0;
    }
    match contract(home, args, &mode) {
        Ok((file, mut text)) => {
            if now && mode == "nothing" {
                return 0;
            }
            if now && mode == "cut" {
                // the last edge is missing
                let end = text.trim_end().rfind('\n').unwrap();
                text.truncate(end + 1);
            }
            fs::write(file, text).expect("contracted graph");
            0
        }
        Err(m) => {
            eprintln!("multi-ch: {}", m);
            1
        }
    }
}

/// what multi-ch does: reads edges by indices, writes them by osm-ids, with shortcuts and levels
fn contract(home: &str, args: &[String], mode: &str) -> Result<(String, String), String> {
    let value = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).ok_or(format!("{} is missing", k));
    if !args.iter().any(|a| a == "--using-osm-ids") || !args.iter().any(|a| a == "--external-edge-ids") {
        return Err("flags are missing".into());
    }
    let dim: usize = fs::read_to_string(format!("{}/build/built", home)).map_err(|e| e.to_string())?.parse().map_err(|_| "built for no dimension")?;
    let net = Fmi::read(&fs::read(value("--text")?).map_err(|e| e.to_string())?)?;
    let ids: Vec<String> = net.nodes.iter().map(|n| n[1].clone()).collect();
    let mut es = vec![];
    for e in &net.edges {
        if e.len() != 3 + dim + 2 {
            return Err(format!("built for {} metrics, but there is {:?}", dim, e));
        }
        let end = |s: &str| s.parse::<usize>().ok().filter(|i| *i < ids.len()).ok_or(format!("no index of a node: {:?}", e));
        let m: Result<Vec<f64>, String> = e[3..3 + dim].iter().map(|s| s.parse().map_err(|_| format!("no metric: {}", s))).collect();
        let id: usize = e[0].parse().map_err(|_| format!("no edge-id: {:?}", e))?;
        es.push((id, end(&e[1])?, end(&e[2])?, m?, [-1i64, -1]));
    }
    if let Some(i) = (0..ids.len()).find(|&i| net.nodes[i][0] != i.to_string() || net.nodes[i].len() != 6) {
        return Err(format!("node {}: {:?}", i, net.nodes[i]));
    }
    let mut level = vec![0; ids.len()];
    if mode != "plain" {
        // every pair of edges at a contracted node is replaced
        let mut next = 1 + es.iter().map(|e| e.0).max().unwrap_or(0);
        for v in 0..ids.len() {
            level[v] = v;
            let up = |u: usize| u > v;
            let mut new = vec![];
            for (i, a) in es.iter().enumerate().filter(|x| x.1 .2 == v && up(x.1 .1)) {
                for (j, b) in es.iter().enumerate().filter(|x| x.1 .1 == v && up(x.1 .2)) {
                    if a.1 != b.2 {
                        let m = a.3.iter().zip(&b.3).map(|(x, y)| x + y).collect();
                        new.push((next, a.1, b.2, m, [i as i64, j as i64]));
                        next += 1;
                    }
                }
            }
            es.extend(new);
        }
    }
    let mut s = format!("# by a stand-in\n\n{}\n{}\n", ids.len(), es.len());
    for (i, n) in net.nodes.iter().enumerate() {
        s += &format!("{} {} {} {} 0 {}\n", i, n[1], n[2], n[3], level[i]);
    }
    for e in &es {
        let m: Vec<String> = e.3.iter().map(|x| x.to_string()).collect();
        s += &format!("{} {} {} {} {} {}\n", e.0, ids[e.1], ids[e.2], m.join(" "), e.4[0], e.4[1]);
    }
    Ok((value("--write")?.clone(), s))
}

pub struct Fmi {
    pub nodes: Vec<Vec<String>>,
    pub edges: Vec<Vec<String>>,
}

impl Fmi {
    pub fn read(bytes: &[u8]) -> Result<Fmi, String> {
        let text = String::from_utf8_lossy(bytes).into_owned();
        let mut rest: Vec<Vec<String>> = text.lines().filter(|s| !s.is_empty() && !s.starts_with('#')).map(|s| s.split_whitespace().map(|s| s.to_string()).collect()).collect();
        // maybe a number of metrics, then of nodes and of edges
        let k = rest.iter().take_while(|r| r.len() == 1).count();
        let counts: Vec<usize> = rest.drain(..k).filter_map(|r| r[0].parse().ok()).collect();
        let (n, m) = match counts.as_slice() {
            [.., n, m] => (*n, *m),
            _ => return Err(format!("no counts:\n{}", text)),
        };
        if rest.len() != n + m {
            return Err(format!("{} nodes and {} edges announced, {} lines:\n{}", n, m, rest.len(), text));
        }
        let edges = rest.split_off(n);
        Ok(Fmi { nodes: rest, edges })
    }
}

//------------------------------------------------------------------------------------------------//
// what is balanced

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Method {
    Averaging,
    Euler(f64),
}

#[derive(Clone, Debug)]
pub struct Job {
    map: String,
    normalize: bool,
    pub method: Method,
    min: Option<f64>,
    err: Option<bool>,
    updates: usize,
    algo: &'static str,
    threads: usize,
    smarts: bool,
    /// plan of the stand-ins: what, and at which call
    plan: (&'static str, Option<usize>),
    alphas: [f64; 3],
    pairs: Vec<(i64, i64, usize)>,
}

fn generating(extra: &str) -> String {
    format!(
        "  generating:
    nodes:
    - meta: {{ info: NodeIdx, id: node-idx }}
    edges:
    - meta: {{ info: SrcIdx, id: src-idx }}
    - meta: {{ info: DstIdx, id: dst-idx }}
{}",
        extra
    )
}

impl Job {
    pub fn averaging(min: f64) -> Job {
        let mut j = job(small_map(3, 1, 0), 0);
        j.min = Some(min);
        j
    }

    /// two updates of a map of four nodes
    pub fn some() -> Job {
        job(small_map(4, 0b101101110110, 0), 0)
    }

    fn lanes(&self, id: i64) -> f64 {
        (1 + id % 3) as f64
    }

    fn cfg(&self) -> String {
        let mut s = format!(
            "parsing:
  map-file: in.fmi
  nodes:
  - meta: {{ info: NodeId, id: node-id }}
  - metric: {{ unit: Latitude, id: lat }}
  - metric: {{ unit: Longitude, id: lon }}
  edges:
    will_normalize_metrics_by_mean: {}
    data:
    - meta: {{ info: EdgeId, id: edge-id }}
    - meta: {{ info: SrcId, id: src-id }}
    - meta: {{ info: DstId, id: dst-id }}
    - metric: {{ unit: Kilometers, id: km }}
    - metric: {{ unit: F64, id: toll }}
    - metric: {{ unit: LaneCount, id: lanes }}
",
            self.normalize
        );
        s += &generating("    - custom: { unit: F64, id: workload, default: 1.0 }\n");
        s += &format!("routing:\n  route-pairs-file: in.route-pairs\n  algorithm: {}\n  metrics:\n", self.algo);
        for (id, a) in ["km", "toll", "workload"].iter().zip(&self.alphas) {
            s += &format!("  - {{ id: {}, alpha: {:?} }}\n", id, a);
        }
        s += "writing:
  graph:
    map-file: somewhere/balanced.fmi
    nodes: [ { id: node-id }, { id: lat }, { id: lon } ]
    edges: { ids: [ { id: edge-id }, { id: src-id }, { id: dst-id }, { id: km }, { id: toll }, { id: lanes }, { id: workload } ] }
";
        s += &format!(
            "balancing:
  seed: 3
  number_of_threads: {}
  results-dir: my/results
  iter-0-cfg: first.yaml
  iter-i-cfg: more.yaml
  optimizing_with:
    metric-id: workload
    method: {}
  number_of_metric-updates: {}
  multi-ch-constructor:
    fmi-graph: graph.fmi
    contracted-graph: graph.ch.fmi
    dimension: 3
    contraction-ratio: '87.5'
    number_of_threads: 5
    is_printing_osm-ids: true
    is_using_external_edge-ids: true
  monitoring:
    export_vehicles_for_SMARTS: {}
    edges-info: {{ file: seen.csv, ids: [ {{ id: edge-id }}, {{ id: workload }} ] }}
",
            self.threads,
            match self.method {
                Method::Averaging => "averaging".to_string(),
                Method::Euler(c) => format!("{{ explicit_euler: {{ correction: {:?} }} }}", c),
            },
            self.updates,
            self.smarts
        );
        if let Some(m) = self.min {
            s += &format!("  min_new_metric: {:?}\n", m);
        }
        if let Some(e) = self.err {
            s += &format!("  throw_err_when_new_metric_is_zero: {}\n", e);
        }
        s
    }

    /// of the first or later iterations
    fn iteration_cfg(&self, first: bool) -> String {
        let mut s = String::from(
            "writing:
  graph:
    map-file: graph.fmi
    nodes: [ { id: node-idx }, { id: node-id }, { id: lat }, { id: lon }, ignored, ignored ]
    edges:
      ids:
      - id: edge-id
      - id: src-idx
      - id: dst-idx
      - id: km
      - id: toll
",
        );
        if !first {
            s += "      - id: workload\n";
        }
        s += "      - ignored
      - ignored
  edges-info: { file: side.csv, ids: [ { id: edge-id }, { id: lanes } ] }
parsing:
  map-file: graph.ch.fmi
  nodes:
  - ignored
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  - ignored
  - meta: { info: CHLevel, id: level }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
    - metric: { unit: Kilometers, id: km }
    - metric: { unit: F64, id: toll }
";
        if !first {
            s += "    - metric: { unit: F64, id: workload }\n";
        }
        s += "    - meta: { info: ShortcutIdx0, id: sc0 }\n    - meta: { info: ShortcutIdx1, id: sc1 }\n";
        let custom = if first { "    - custom: { unit: F64, id: workload, default: 1.0 }\n" } else { "" };
        s += &generating(&format!("{}    - custom: {{ unit: LaneCount, id: lanes, default: 7.0 }}\n    - merge: {{ from: side.csv, edge-id: edge-id, edges-info: [ {{ id: edge-id }}, {{ id: lanes }} ] }}\n", custom));
        s
    }

    pub fn inputs(&self) -> Files {
        let mut f = Files::new();
        let (_, es) = arcs(&self.map);
        let n = self.map.lines().next().unwrap().parse::<usize>().unwrap();
        let mut map: String = self.map.lines().take(2 + n).fold(String::new(), |s, x| s + x + "\n");
        for e in &es {
            map += &format!("{} {} {} {} {} {}\n", e.0, e.1, e.2, e.3, e.4, self.lanes(e.0));
        }
        f.insert("in.fmi".into(), map.into());
        f.insert("in.route-pairs".into(), self.pairs.iter().fold(format!("{}\n", self.pairs.len()), |s, x| s + &format!("{} {} {}\n", x.0, x.1, x.2)).into());
        f.insert("cfg.yaml".into(), self.cfg().into());
        f.insert("first.yaml".into(), self.iteration_cfg(true).into());
        f.insert("more.yaml".into(), self.iteration_cfg(false).into());
        f.insert(format!("{}/plan", TOOL), format!("{} {}", self.plan.0, self.plan.1.map(|x| x.to_string()).unwrap_or_default()).into());
        f
    }
}

pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}

/// a cwd with stand-ins, returned is the directory for PATH
pub fn prepare(dir: &Path, files: &Files) -> String {
    cli::put(dir, files);
    let me = std::env::current_exe().expect("me");
    fs::create_dir_all(dir.join(TOOL).join("build")).expect("scratch");
    fs::create_dir_all(dir.join("bin")).expect("scratch");
    symlink(&me, dir.join(TOOL).join("build/multi-ch")).expect("scratch");
    symlink(&me, dir.join("bin/cmake")).expect("scratch");
    dir.join("bin").to_string_lossy().into_owned()
}

/// files without those of the stand-ins, and their calls
pub fn collect(dir: &Path) -> (Files, Vec<Vec<String>>) {
    fs::remove_file(dir.join("bin/cmake")).expect("scratch");
    fs::remove_file(dir.join(TOOL).join("build/multi-ch")).expect("scratch");
    let mut f = cli::tree(dir);
    let calls = f.remove(&format!("{}/calls.log", TOOL)).unwrap_or_default();
    f.remove(&format!("{}/build/configured", TOOL));
    f.remove(&format!("{}/build/built", TOOL));
    let calls = String::from_utf8_lossy(&calls).lines().map(|s| s.split('|').map(|s| s.to_string()).collect()).collect();
    (f, calls)
}

/// edges of the network (without shortcuts) by id: ends, km, toll, workload
pub type Net = BTreeMap<i64, (i64, i64, [f64; 3])>;

pub enum Update {
    To(Net),
    Refused,
    Open,
}

pub fn update(net: &Net, loads: &BTreeMap<i64, f64>, job: &Job, iteration: usize, shortcuts: usize, sc_workload: &mut Vec<f64>) -> Update {
    // shortcuts have no workload
    let all = (net.len() + shortcuts) as f64;
    let mean = loads.values().sum::<f64>() / all;
    if mean == 0.0 {
        return Update::Refused;
    }
    let step = |old: f64, w: f64| match job.method {
        Method::Euler(c) => old + (w - old) * c,
        Method::Averaging => (iteration as f64 * old + w) / (iteration as f64 + 1.0),
    };
    let mut v: Vec<f64> = net.iter().map(|(id, e)| step(e.2[2], loads[id] / mean)).collect();
    v.extend(sc_workload.iter().map(|&old| step(old, 0.0)));
    match job.min {
        Some(min) => {
            if v.iter().any(|x| (x - min).abs() > 1e-12 && (x - min).abs() < 1e-5) {
                return Update::Open;
            }
            v.iter_mut().for_each(|x| *x = x.max(min));
        }
        None => {
            if v.iter().any(|x| *x > 1e-12 && *x < 1e-5) {
                return Update::Open;
            }
            if v.iter().any(|x| *x <= 1e-12) && job.err.unwrap_or(true) {
                return Update::Refused;
            }
        }
    }
    let mean = v.iter().sum::<f64>() / all;
    if mean < 1e-5 {
        return if mean <= 1e-12 { Update::Refused } else { Update::Open };
    }
    let mut new = net.clone();
    for ((_, e), x) in new.iter_mut().zip(&v) {
        e.2[2] = x / mean;
    }
    Update::To(new)
}

/// all simple paths from s to t as lists of edge-ids
fn paths(net: &Net, s: i64, t: i64) -> Vec<Vec<i64>> {
    fn go(net: &Net, at: i64, t: i64, seen: &mut Vec<i64>, path: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if at == t {
            out.push(path.clone());
            return;
        }
        seen.push(at);
        for (id, e) in net {
            if e.0 == at && !seen.contains(&e.1) {
                path.push(*id);
                go(net, e.1, t, seen, path, out);
                path.pop();
            }
        }
        seen.pop();
    }
    let mut out = vec![];
    go(net, s, t, &mut vec![], &mut vec![], &mut out);
    out
}

fn nodes_of(net: &Net, p: &[i64]) -> Vec<i64> {
    let mut v = vec![net[&p[0]].0];
    v.extend(p.iter().map(|i| net[i].1));
    v
}

/// Are workloads and vehicles of one iteration possible ones?
fn judge_loads(job: &Job, net: &Net, alphas: [f64; 3], loads: &BTreeMap<i64, f64>, cars: Option<&[(String, Vec<i64>)]>) -> Result<(), String> {
    if loads.keys().collect::<Vec<_>>() != net.keys().collect::<Vec<_>>() {
        return Err(format!("workloads {:?} for edges {:?}", loads, net));
    }
    let explorator = job.algo.contains("Explorator");
    let mut fixed = true;
    let mut sum: BTreeMap<i64, f64> = net.keys().map(|k| (*k, 0.0)).collect();
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    let mut may: BTreeMap<String, BTreeSet<Vec<i64>>> = BTreeMap::new();
    let mut ways: BTreeMap<Vec<i64>, Vec<i64>> = BTreeMap::new();
    for x in job.pairs.iter().filter(|x| x.2 > 0) {
        let all = paths(net, x.0, x.1);
        let cost = |p: &Vec<i64>| p.iter().map(|i| (0..3).map(|k| net[i].2[k] * alphas[k]).sum::<f64>()).sum::<f64>();
        let min = all.iter().map(cost).fold(f64::INFINITY, f64::min);
        // an explorator may choose other ones as well
        let good: Vec<&Vec<i64>> = all.iter().filter(|p| explorator || near(cost(p), min)).collect();
        if good.is_empty() {
            continue;
        }
        let name = format!("{}->{}", x.0, x.1);
        *want.entry(name.clone()).or_default() += x.2;
        for p in &good {
            ways.insert(nodes_of(net, p), p.to_vec());
            may.entry(name.clone()).or_default().insert(nodes_of(net, p));
        }
        if good.len() == 1 {
            for i in good[0] {
                *sum.get_mut(i).unwrap() += x.2 as f64;
            }
        } else {
            fixed = false;
        }
    }
    if fixed && sum != *loads {
        return Err(format!("workloads {:?} instead of {:?}", loads, sum));
    }
    if let Some(cars) = cars {
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        let mut sum: BTreeMap<i64, f64> = net.keys().map(|k| (*k, 0.0)).collect();
        for (name, nodes) in cars {
            if !may.get(name).map_or(false, |m| m.contains(nodes)) {
                return Err(format!("vehicle {} drives {:?}, best is {:?}", name, nodes, may.get(name)));
            }
            *got.entry(name.clone()).or_default() += 1;
            for i in &ways[nodes] {
                *sum.get_mut(i).unwrap() += 1.0;
            }
        }
        if got != want {
            return Err(format!("vehicles {:?} instead of {:?}", got, want));
        }
        if sum != *loads {
            return Err(format!("workloads {:?}, but vehicles make {:?}", loads, sum));
        }
    }
    Ok(())
}

/// a map written by the program: rows of edges by id
pub fn rows(bytes: Option<&Vec<u8>>, what: &str, columns: usize) -> Result<(Vec<Vec<String>>, BTreeMap<i64, Vec<String>>), String> {
    let f = Fmi::read(bytes.ok_or(format!("{} is missing", what))?).map_err(|m| format!("{}: {}", what, m))?;
    let mut m = BTreeMap::new();
    for e in f.edges {
        let id = e[0].parse().map_err(|_| format!("{}: no edge-id in {:?}", what, e))?;
        if e.len() != columns || m.insert(id, e).is_some() {
            return Err(format!("{}: edge {} is doubled or has not {} columns", what, id, columns));
        }
    }
    Ok((f.nodes, m))
}

fn numbers(e: &[String]) -> Result<Vec<f64>, String> {
    e.iter().map(|s| s.parse().map_err(|_| format!("{} is no number", s))).collect()
}

pub fn dated(s: &str) -> bool {
    let digits = |s: &str| s.chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect::<String>();
    digits(s) == "utc_0000-00-00_00-00-00"
}

/// Returns what has been seen: was it done, workloads of each iteration
fn balance(scratch: &Path, job: &Job, l: &mut Local) -> Result<(bool, Vec<Vec<u64>>), String> {
    let dir = cli::fresh(scratch, l.worker);
    let inputs = job.inputs();
    let bin = prepare(&dir, &inputs);
    let ran = cli::run(Bin::Gpl, &dir, &["--config", "cfg.yaml", "--balancing", "--log", "ERROR"], &[("PATH", &bin)])?;
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let (mut got, calls) = collect(&dir);
    judge(job, &inputs, &ran, &mut got, &calls, l).map_err(|m| format!("{}\n{:?}\nlog: {}", m, job, ran.log))
}

fn judge(job: &Job, inputs: &Files, ran: &cli::Ran, got: &mut Files, calls: &[Vec<String>], l: &mut Local) -> Result<(bool, Vec<Vec<u64>>), String> {
    for (k, v) in inputs {
        match got.remove(k) {
            Some(g) if g == *v => (),
            _ => return Err(format!("{} has been changed", k)),
        }
    }
    // one dated directory
    let roots: BTreeSet<String> = got.keys().map(|k| k.split('/').take(3).collect::<Vec<_>>().join("/")).collect();
    let root = match roots.iter().next() {
        Some(r) if roots.len() == 1 && r.starts_with("my/results/") && dated(&r[11..]) => format!("{}/", r),
        _ => return Err(format!("results are in {:?}", roots)),
    };
    let mut take = |name: &str| got.remove(&format!("{}{}", root, name));
    for f in &["cfg.yaml", "in.route-pairs"] {
        let copy = take(f);
        let at_once = *f == "cfg.yaml";
        if copy.as_ref() != inputs.get(*f) && (at_once || copy.is_some() || ran.ok) {
            return Err(format!("{} has not been copied", f));
        }
    }

    // the network as it is read in
    let (node_ids, es): (Vec<i64>, Vec<Arc5>) = arcs(&job.map);
    let mean = |f: &dyn Fn(&Arc5) -> f64| if job.normalize { es.iter().map(|e| f(e)).sum::<f64>() / es.len() as f64 } else { 1.0 };
    let (km, toll, lanes) = (mean(&|e| e.3), mean(&|e| e.4), mean(&|e| job.lanes(e.0)));
    let mut net: Net = es.iter().map(|e| (e.0, (e.1, e.2, [e.3 / km, e.4 / toll, 1.0]))).collect();
    let known: BTreeSet<i64> = es.iter().flat_map(|e| vec![e.1, e.2]).collect();
    let coords: BTreeMap<i64, Vec<f64>> = job.map.lines().skip(2).take(node_ids.len()).map(|s| s.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect::<Vec<_>>()).map(|v| (v[0] as i64, v[1..].to_vec())).collect();

    let mut seen = vec![];
    let last = job.updates;
    let mut ended = None;
    for iter in 0..=last {
        let at = |s: &str| format!("iteration {}: {}", iter, s);
        if iter == last {
            // the balanced network
            let (nodes, edges) = rows(take("balanced.fmi").as_ref(), "balanced.fmi", 7)?;
            let ids: BTreeSet<i64> = nodes.iter().filter_map(|n| n[0].parse().ok()).collect();
            if ids != known || nodes.len() != known.len() || edges.len() != net.len() {
                return Err(format!("the balanced network has nodes {:?}, edges {:?}", nodes, edges));
            }
            for (id, e) in &edges {
                let want = net.get(id).ok_or(format!("there is no edge {}", id))?;
                let x = numbers(e)?;
                if x[1] as i64 != want.0 || x[2] as i64 != want.1 || !near(x[3], want.2[0]) || !near(x[4], want.2[1]) || !near(x[5], job.lanes(*id) / lanes) || !near(x[6], want.2[2]) {
                    return Err(format!("the balanced network has edge {:?} instead of {:?}", e, want));
                }
            }
        }
        let call = calls.iter().skip(iter * 3).take(3).collect::<Vec<_>>();
        // written for the tool
        let first = iter == 0;
        if take(&format!("{}/iteration.yaml", iter)).as_ref() != inputs.get(if first { "first.yaml" } else { "more.yaml" }) {
            return Err(at("its config is not the one to use"));
        }
        let dim = if first { 2 } else { 3 };
        let (nodes, edges) = rows(take(&format!("{}/graph.fmi", iter)).as_ref(), &at("graph.fmi"), 5 + dim)?;
        let mut of_idx = vec![];
        for (i, n) in nodes.iter().enumerate() {
            let id = n.get(1).and_then(|s| s.parse::<i64>().ok());
            let c: Vec<f64> = n.iter().skip(2).take(2).filter_map(|s| s.parse().ok()).collect();
            match id {
                Some(id) if known.contains(&id) && n[0] == i.to_string() && c.len() == 2 && near(c[0], coords[&id][0]) && near(c[1], coords[&id][1]) => of_idx.push(id),
                _ => return Err(at(&format!("node {:?}", n))),
            }
        }
        if of_idx.len() != known.len() || edges.len() != net.len() {
            return Err(at(&format!("nodes {:?}, edges {:?}", nodes, edges)));
        }
        for (id, e) in &edges {
            let want = net.get(id).ok_or(at(&format!("there is no edge {}", id)))?;
            let x = numbers(&e[1..3 + dim])?;
            let end = |v: f64| of_idx.get(v as usize).copied();
            if end(x[0]) != Some(want.0) || end(x[1]) != Some(want.1) || !(0..dim).all(|k| near(x[2 + k], want.2[k])) {
                return Err(at(&format!("the tool is given edge {:?} instead of {:?}", e, want)));
            }
        }
        let side = csv(&take(&format!("{}/side.csv", iter)).ok_or(at("side.csv is missing"))?, "edge-id lanes")?;
        if side.len() != net.len() || !side.iter().all(|(id, v)| net.contains_key(id) && near(*v, job.lanes(*id) / lanes)) {
            return Err(at(&format!("lanes {:?}", side)));
        }
        // calls of the tool
        let d = format!("GRAPH_DIM={}", dim);
        let path = |s: &str| format!("{}{}/{}", root, iter, s);
        for (i, c) in call.iter().enumerate() {
            let has = |k: &str, v: &str| c.iter().position(|a| a == k).and_then(|i| c.get(i + 1)).map_or(false, |x| x == v);
            let ok = match i {
                0 => c[0] == "cmake" && c[1] == "-Bbuild" && has("-D", &d),
                1 => c[0] == "cmake" && c[1..] == ["--build", "build"],
                _ => {
                    c[0] == "multi-ch"
                        && has("--threads", "5")
                        && has("--percent", "87.5")
                        && has("--text", &path("graph.fmi"))
                        && has("--write", &path("graph.ch.fmi"))
                        && c.contains(&"--using-osm-ids".into())
                        && c.contains(&"--external-edge-ids".into())
                }
            };
            if !ok {
                return Err(at(&format!("call {:?}", c)));
            }
        }
        let negative = !first && net.values().any(|e| e.2[2] < -1e-5);
        if !first && !negative {
            // read in again, zeros are lifted to the accuracy
            net.values_mut().for_each(|e| e.2.iter_mut().for_each(|x| *x = x.max(1e-6)));
        }
        let broken = job.plan.1.map_or(false, |k| k / 3 == iter);
        if broken {
            let fails_at = job.plan.1.unwrap() % 3;
            let wanted = if job.plan.0 == "fail" { fails_at + 1 } else { 3 };
            if call.len() != wanted {
                return Err(at(&format!("{} calls instead of {}", call.len(), wanted)));
            }
            take(&format!("{}/graph.ch.fmi", iter));
            ended = Some(iter);
            break;
        }
        if call.len() != 3 {
            return Err(at(&format!("calls {:?}", call)));
        }
        let ch = Fmi::read(&take(&format!("{}/graph.ch.fmi", iter)).ok_or(at("the tool has written nothing"))?)?;
        let shortcuts: Vec<f64> = ch.edges.iter().filter(|e| e[e.len() - 1] != "-1").map(|e| if first { 1.0 } else { e[5].parse().unwrap() }).collect();
        if negative {
            // over-corrected, such a metric can't be read in
            ended = Some(iter);
            break;
        }
        // routes
        let mut alphas = job.alphas;
        if first {
            alphas[2] = 0.0;
        }
        let stats = (take(&format!("{}/stats/abs_workloads.csv", iter)), take(&format!("{}/stats/seen.csv", iter)), take(&format!("{}/stats/smarts.xml", iter)));
        let (loads, info) = match &stats {
            (Some(a), Some(b), _) => (csv(a, "edge-id num_routes")?, csv(b, "edge-id workload")?),
            (None, None, None) => {
                // is there a reason? the loads are known if the best paths are unique
                match predicted(job, &net, alphas).map(|loads| update(&net, &loads, job, iter, shortcuts.len(), &mut shortcuts.clone())) {
                    Some(Update::To(_)) => return Err(at("ended without statistics")),
                    _ => {
                        ended = Some(iter);
                        break;
                    }
                }
            }
            _ => return Err(at("statistics are incomplete")),
        };
        let cars = match &stats.2 {
            Some(b) if job.smarts => Some(vehicles(b)?),
            None if !job.smarts => None,
            _ => return Err(at("vehicles are to be written if and only if asked for")),
        };
        judge_loads(job, &net, alphas, &loads, cars.as_deref()).map_err(|m| at(&m))?;
        seen.push(loads.values().map(|x| *x as u64).collect());
        match update(&net, &loads, job, iter, shortcuts.len(), &mut shortcuts.clone()) {
            Update::Open => return Ok((ran.ok, seen)),
            Update::Refused => return Err(at(&format!("workloads {:?} make no metric, but it goes on", loads))),
            Update::To(new) => {
                if info.len() != new.len() || !info.iter().all(|(id, v)| new.get(id).map_or(false, |e| near(*v, e.2[2]))) {
                    return Err(at(&format!("new metric {:?} instead of {:?}, workloads {:?}", info, new, loads)));
                }
                net = new;
            }
        }
    }
    if ran.ok != ended.is_none() {
        return Err(format!("success is {}, but it has ended at {:?}", ran.ok, ended));
    }
    let calls_of = match ended {
        Some(i) if job.plan.1.map_or(false, |k| k / 3 == i) => 0,
        Some(i) => (i + 1) * 3,
        None => (last + 1) * 3,
    };
    if calls_of != 0 && calls.len() != calls_of {
        return Err(format!("{} calls instead of {}", calls.len(), calls_of));
    }
    if let Some(k) = got.keys().next() {
        return Err(format!("{} should not have been written", k));
    }
    l.sample(|| format!("{} update(s) by {:?}, {}, {} threads: {}; workloads of the iterations {:?}", job.updates, job.method, job.algo, job.threads, if ran.ok { "done" } else { "refused" }, seen));
    Ok((ran.ok, seen))
}

/// the workloads, if the best paths are unique
fn predicted(job: &Job, net: &Net, alphas: [f64; 3]) -> Option<BTreeMap<i64, f64>> {
    let mut sum: BTreeMap<i64, f64> = net.keys().map(|k| (*k, 0.0)).collect();
    for x in job.pairs.iter().filter(|x| x.2 > 0) {
        let all = paths(net, x.0, x.1);
        let cost = |p: &Vec<i64>| p.iter().map(|i| (0..3).map(|k| net[i].2[k] * alphas[k]).sum::<f64>()).sum::<f64>();
        let min = all.iter().map(cost).fold(f64::INFINITY, f64::min);
        let good: Vec<&Vec<i64>> = all.iter().filter(|p| job.algo.contains("Explorator") || near(cost(p), min)).collect();
        if good.len() > 1 {
            return None;
        }
        for i in good.iter().flat_map(|p| p.iter()) {
            *sum.get_mut(i).unwrap() += x.2 as f64;
        }
    }
    Some(sum)
}

const ALGOS: [&str; 4] = ["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }", "{ Explorator: { algo: CHDijkstra } }"];
const IDS: [i64; 4] = [7, 3, 12, 1000000007];

fn pairs(map: &str, counts: u64) -> Vec<(i64, i64, usize)> {
    let (_, es) = arcs(map);
    let known = |n: i64| es.iter().any(|x| x.1 == n || x.2 == n);
    let mut v = vec![];
    for (i, s) in IDS.iter().enumerate() {
        for (j, t) in IDS.iter().enumerate() {
            if i != j && known(*s) && known(*t) {
                let k = (i * 4 + j) as u64;
                v.push((*s, *t, match counts { 0 => 1, 1 => (k % 3) as usize, _ => (1 + 5 * (k % 2)) as usize }));
            }
        }
    }
    v
}

fn job(map: String, counts: u64) -> Job {
    // such that a constant workload makes detours worse than direct edges
    let of_workload = if map.starts_with('4') { 128.0 } else { 16.0 };
    Job {
        pairs: pairs(&map, counts),
        map,
        normalize: false,
        method: Method::Averaging,
        min: Some(0.125),
        err: None,
        updates: 2,
        algo: ALGOS[0],
        threads: 1,
        smarts: true,
        plan: ("plain", None),
        alphas: [1.0, 0.5, of_workload],
    }
}

/// the program multi-ch-constructor
fn constructor(scratch: &Path, idx: u64, l: &mut Local) -> Verdict {
    let mut d = Dig(idx);
    let (dim, threads, ratio, acc, min, osm, ext, fail) = (d.take(3) + 1, d.take(3), d.take(3), d.take(3), d.take(2), d.take(2) == 1, d.take(2) == 1, d.take(4));
    let mut s = format!("multi-ch-constructor:\n  fmi-graph: some/a.fmi\n  contracted-graph: some/b.ch.fmi\n  dimension: {}\n  is_printing_osm-ids: {}\n  is_using_external_edge-ids: {}\n", dim, osm, ext);
    if threads > 0 {
        s += &format!("  number_of_threads: {}\n", threads);
    }
    if ratio > 0 {
        s += &format!("  contraction-ratio: '{}'\n", ["", "50", "12.50"][ratio as usize]);
    }
    if acc > 0 {
        s += &format!("  cost-accuracy: {}\n", ["", "0.25", "1"][acc as usize]);
    }
    if min > 0 {
        s += "  minimum-cost: 0.5\n";
    }
    let mut files = Files::new();
    files.insert("cfg.yaml".into(), s.clone().into());
    files.insert("some/a.fmi".into(), b"2\n1\n0 10 1 1 _ _\n1 11 1 2 _ _\n".to_vec());
    let plan = if fail < 3 { format!("fail {}", fail) } else { "plain".into() };
    files.insert(format!("{}/plan", TOOL), plan.into());
    let edge = format!("5 0 1 {}_ _\n", "1 ".repeat(dim as usize));
    files.get_mut("some/a.fmi").unwrap().extend(edge.into_bytes());
    let dir = cli::fresh(scratch, l.worker);
    let bin = prepare(&dir, &files);
    let ran = cli::run(Bin::Mchc, &dir, &["--config", "cfg.yaml"], &[("PATH", &bin)])?;
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let (mut got, calls) = collect(&dir);
    let text = || format!("{}\n{}\n{:?}", s, ran.log, calls);
    // the stand-in needs both flags
    let ok = fail == 3 && osm && ext;
    if ran.ok != ok {
        return Err(format!("success is {}: {}", ran.ok, text()));
    }
    if got.remove("some/b.ch.fmi").is_some() != ok {
        return Err(format!("the contracted graph: {}", text()));
    }
    cli::same(&files, &got).map_err(|m| format!("{}: {}", m, text()))?;
    let n = if fail < 3 { fail as usize + 1 } else { 3 };
    if calls.len() != n {
        return Err(format!("{} calls: {}", n, text()));
    }
    for (i, c) in calls.iter().enumerate() {
        let after = |k: &str| c.iter().position(|a| a == k).and_then(|i| c.get(i + 1)).cloned().unwrap_or_default();
        let def = |name: &str| c.iter().enumerate().find(|(i, a)| *i > 0 && c[i - 1] == "-D" && a.starts_with(name)).map(|(_, a)| a[name.len()..].to_string()).unwrap_or_default();
        let good = match i {
            0 => {
                c[0] == "cmake" && c[1] == "-Bbuild" && def("GRAPH_DIM=") == dim.to_string() && {
                    let want = [1e-4, 0.25, 1.0][acc as usize];
                    def("COST_ACCURACY=").parse::<f64>().map_or(false, |x| x == want)
                }
            }
            1 => c[0] == "cmake" && c[1..] == ["--build", "build"],
            _ => {
                let mut rest: Vec<&str> = c[1..].iter().map(|s| s.as_str()).filter(|s| !s.is_empty()).collect();
                rest.sort_unstable();
                let t = if threads == 0 { 4 } else { threads }.to_string();
                let mut want = vec!["--threads", &t, "--percent", ["99.8", "50", "12.50"][ratio as usize], "--text", "some/a.fmi", "--write", "some/b.ch.fmi"];
                if osm {
                    want.push("--using-osm-ids");
                }
                if ext {
                    want.push("--external-edge-ids");
                }
                want.sort_unstable();
                c[0] == "multi-ch" && rest == want && after("--threads") == t && after("--text") == "some/a.fmi" && after("--write") == "some/b.ch.fmi"
            }
        };
        if !good {
            return Err(format!("call {}: {}", i, text()));
        }
    }
    l.outcome(&calls);
    Ok(())
}

/// what is missing or wrong
fn defect(scratch: &Path, kind: u64, other: u64, l: &mut Local) -> Verdict {
    let j = job(small_map(3, 63, 0), 0);
    let mut f = j.inputs();
    let text = |f: &Files, k: &str| String::from_utf8(f[k].clone()).unwrap();
    let mut edit = |file: &str, from: &str, to: &str| {
        let t = text(&f, file);
        assert!(t.contains(from), "harness: {}", from);
        f.insert(file.into(), t.replace(from, to).into());
    };
    // may there be results?
    let mut early = true;
    match kind {
        0 => edit("cfg.yaml", "writing:\n", "waiting:\n"),
        1 => edit("cfg.yaml", "balancing:\n", "banking:\n"),
        2 => edit("cfg.yaml", "routing:\n", "rooting:\n"),
        3 => edit("cfg.yaml", "parsing:\n", "passing:\n"),
        4 => edit("cfg.yaml", "  - { id: km,", "  - { id: kmm,"),
        5 => drop(f.remove("in.fmi")),
        _ => {
            early = false;
            match kind {
                6 => drop(f.remove("first.yaml")),
                7 => drop(f.remove("more.yaml")),
                8 => drop(f.remove("in.route-pairs")),
                9 => edit("cfg.yaml", "metric-id: workload", "metric-id: work"),
                10 => edit("cfg.yaml", "  route-pairs-file: in.route-pairs\n", ""),
                11 => edit("first.yaml", "writing:\n", "waiting:\n"),
                12 => edit("more.yaml", "parsing:\n", "passing:\n"),
                13 => edit("cfg.yaml", "dimension: 3", "dimension: 4"),
                14 => edit("first.yaml", "from: side.csv", "from: sight.csv"),
                15 => edit("in.route-pairs", "7 3 ", "7 4 "),
                16 => edit("cfg.yaml", "number_of_threads: 1", "number_of_threads: 0"),
                _ => edit("cfg.yaml", "seen.csv, ids: [ { id: edge-id }", "seen.csv, ids: [ { id: edge-ids }"),
            }
        }
    }
    let dir = cli::fresh(scratch, l.worker);
    let bin = prepare(&dir, &f);
    let mut args = vec!["--config", "cfg.yaml", "--balancing"];
    if other == 1 {
        args.push("--routing");
    }
    let ran = cli::run(Bin::Gpl, &dir, &args, &[("PATH", &bin)])?;
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let (got, calls) = collect(&dir);
    let text = || format!("defect {}\n{:?}\n{}", kind, calls, ran.log);
    if ran.ok {
        return Err(format!("reports success: {}", text()));
    }
    if ran.log.is_empty() {
        return Err(format!("says nothing: {}", text()));
    }
    for (k, v) in &f {
        if got.get(k) != Some(v) {
            return Err(format!("{} has been changed: {}", k, text()));
        }
    }
    if let Some(k) = got.keys().find(|k| !f.contains_key(*k) && (early || !k.starts_with("my/results/utc_"))) {
        return Err(format!("{} should not have been written: {}", k, text()));
    }
    if early && !calls.is_empty() {
        return Err(format!("the tool has been called: {}", text()));
    }
    l.outcome(&(kind, calls.len()));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let dir = &dir;
    let go = |j: &Job, l: &mut Local| -> Verdict {
        let seen = balance(dir, j, l)?;
        l.outcome(&seen);
        Ok(())
    };
    c.family("updates", "all 63 maps of 3 nodes x 0 to 3 updates x averaging or Euler (1/2, 1, 5/4) x minimal metric, zeros allowed, zeros refused (default and explicit), x normalised or not", 63 * 4 * 4 * 4 * 2, |i, l| -> Verdict {
        let mut d = Dig(i);
        let mut j = job(small_map(3, d.take(63) + 1, 2), i % 3);
        j.updates = d.take(4) as usize;
        j.method = [Method::Averaging, Method::Euler(0.5), Method::Euler(1.0), Method::Euler(1.25)][d.take(4) as usize];
        let (min, err) = [(Some(0.125), None), (None, Some(false)), (None, None), (Some(0.5), Some(true))][d.take(4) as usize];
        j.min = min;
        j.err = err;
        j.normalize = d.take(2) == 1;
        go(&j, l)
    });
    let mixes = c.pick(1, 3);
    c.family("algorithms", "all 63 maps of 3 nodes x 4 algorithms x plain or contracted network x 1 to 3 threads x with or without vehicles x 3 weightings (thorough: x 3 mixes of counts), 2 updates", 63 * 4 * 2 * 3 * 2 * 3 * mixes, |i, l| -> Verdict {
        let mut d = Dig(i);
        let mask = d.take(63) + 1;
        let a = d.take(4) as usize;
        let plan = ["plain", "contract"][d.take(2) as usize];
        let threads = 1 + d.take(3) as usize;
        let smarts = d.take(2) == 0;
        let alphas = [[1.0, 0.5, 16.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.25]][d.take(3) as usize];
        let mut j = job(small_map(3, mask, 4), if mixes == 1 { i % 3 } else { d.take(3) });
        j.algo = ALGOS[a];
        j.plan = (plan, None);
        j.threads = threads;
        j.smarts = smarts;
        // an explorator needs considered metrics in the first iteration as well
        if a >= 2 && alphas[0] == 0.0 {
            return Ok(());
        }
        // equal bests at zero costs are not in question
        if alphas[0] == 0.0 {
            // in the first iteration without workloads, some detour is better
            j.alphas = [5e-3, 1e-3, 1.0];
        } else {
            j.alphas = alphas;
        }
        go(&j, l)
    });
    let maps = pow(2, 12);
    let per = c.pick(2, 16);
    c.family("maps", "all maps of 4 nodes, contracted network, CH-Dijkstra or Dijkstra, 2 updates (thorough: 4 methods and minima each)", (maps - 1) * per, |i, l| -> Verdict {
        let mut d = Dig(i);
        let mut j = job(small_map(4, d.take(maps - 1) + 1, 0), i % 3);
        j.algo = ALGOS[d.take(2) as usize];
        j.plan = (["contract", "plain"][d.take(2) as usize], None);
        j.method = [Method::Averaging, Method::Euler(0.5)][d.take(2) as usize];
        j.normalize = d.take(2) == 1;
        go(&j, l)
    });
    c.family("faults", "every call of the external tools fails (or the contracted graph is not written, or is cut) x 0 to 3 updates x 8 maps", 8 * 4 * 3 * 12, |i, l| -> Verdict {
        let mut d = Dig(i);
        let mut j = job(small_map(3, 63 - d.take(8) * 5, 0), 0);
        j.updates = d.take(4) as usize;
        let what = ["fail", "nothing", "cut"][d.take(3) as usize];
        let at = d.take(12) as usize;
        if at >= 3 * (j.updates + 1) || (what != "fail" && at % 3 != 2) {
            return Ok(());
        }
        j.plan = (what, Some(at));
        go(&j, l)
    });
    c.family("defects", "18 missing or wrong sections, files and values, alone or after routing: refused, inputs stay as they are", 36, |i, l| -> Verdict { defect(dir, i / 2, i % 2, l) });
    c.family("constructor", "the program multi-ch-constructor: all configs (dimension, threads, ratio, accuracy, minimum, flags) x a failing call or none", 3 * 3 * 3 * 3 * 2 * 2 * 2 * 4, |i, l| -> Verdict { constructor(dir, i, l) });
}
