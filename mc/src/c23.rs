//! C23: the documented workflow, from a map of OpenStreetMap to evaluated balanced routes.
use crate::{
    c10::{self, Node, Osm, Way, Who},
    c20::{read_routes, vehicles},
    c21::{collect, dated, near, prepare, rows, update, Fmi, Job, Method, Net, Update, TOOL},
    c08::sphere,
    cli::{self, Bin, Files},
    engine::{pow, Ctx, Dig, Local, Verdict},
    model::N,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
};

const HOME: &str = "resources/isle_of_man_2020-03-14";
const RESULTS: &str = "custom/results/isle_of_man_2020-03-14";
/// of graph.osm.pbf, in this order
const MADE: [&str; 4] = ["graph.fmi", "graph_for_ch.fmi", "graph.ch.fmi", "10_000.route-pairs"];

const NODES: [Node; 4] = [(40, 541_600_000, -45_000_000), (7, 541_700_000, -44_910_000), (1_000_000_007, 541_655_000, -44_700_000), (23, 541_900_000, -45_123_456)];

/// where ways may be, and what they may be
const SLOTS: [&[usize]; 5] = [&[0, 1], &[1, 2], &[2, 0], &[0, 3, 2], &[3, 1]];
const TAGS: [&[(&str, &str)]; 5] = [
    &[],
    &[("highway", "residential")],
    &[("highway", "motorway"), ("oneway", "yes")],
    &[("highway", "secondary"), ("oneway", "-1"), ("maxspeed", "30")],
    &[("highway", "cycleway")],
];

fn osm(mut idx: u64) -> Osm {
    let mut ways: Vec<Way> = vec![];
    for slot in &SLOTS {
        let t = idx as usize % TAGS.len();
        idx /= TAGS.len() as u64;
        if t > 0 {
            ways.push(c10::way(&slot.iter().map(|i| NODES[*i].0).collect::<Vec<_>>(), TAGS[t]));
        }
    }
    Osm { nodes: NODES.to_vec(), ways }
}

/// an edge of the map
#[derive(Clone, Debug)]
struct Street {
    src: i64,
    dst: i64,
    /// speed, lanes, kilometers, hours
    m: [f64; 4],
}

struct World {
    nodes: BTreeMap<i64, [f64; 2]>,
    streets: Vec<Street>,
}

impl World {
    fn of(o: &Osm) -> World {
        let (es, ns) = c10::meaning(o, &Who::car());
        let at = |id: i64| -> &N { ns.iter().find(|n| n.id == id).expect("harness: node") };
        let streets: Vec<Street> = es
            .iter()
            .map(|x| {
                let km = sphere(at(x.src), at(x.dst));
                Street { src: x.src, dst: x.dst, m: [x.m[0], x.m[1], km, km / x.m[0]] }
            })
            .collect();
        let nodes = streets.iter().flat_map(|x| vec![x.src, x.dst]).map(|id| (id, [at(id).lat, at(id).lon])).collect();
        World { nodes, streets }
    }

    /// indices of streets
    fn paths(&self, s: i64, t: i64) -> Vec<Vec<usize>> {
        fn go(w: &World, at: i64, t: i64, seen: &mut Vec<i64>, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if at == t {
                out.push(path.clone());
                return;
            }
            seen.push(at);
            for (i, x) in w.streets.iter().enumerate() {
                if x.src == at && !seen.contains(&x.dst) {
                    path.push(i);
                    go(w, x.dst, t, seen, path, out);
                    path.pop();
                }
            }
            seen.pop();
        }
        let mut out = vec![];
        go(self, s, t, &mut vec![], &mut vec![], &mut out);
        out
    }

    fn pairs(&self) -> BTreeSet<(i64, i64)> {
        let ids: Vec<i64> = self.nodes.keys().copied().collect();
        ids.iter().flat_map(|s| ids.iter().map(move |t| (*s, *t))).filter(|(s, t)| s != t && !self.paths(*s, *t).is_empty()).collect()
    }

    fn street(&self, s: i64, t: i64) -> Option<&Street> {
        self.streets.iter().find(|x| x.src == s && x.dst == t)
    }
}

/// the repository's configs of this map
fn shipped() -> Files {
    let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
    let home = PathBuf::from(repo).join(HOME);
    let mut f = Files::new();
    for (k, v) in cli::tree(&home) {
        if k.ends_with(".yaml") {
            f.insert(format!("{}/{}", HOME, k), v);
        }
    }
    assert!(f.len() >= 8, "harness: configs of {}", home.display());
    f
}

fn inputs(cfgs: &Files, o: &Osm) -> Files {
    let mut f = cfgs.clone();
    f.insert(format!("{}/graph.osm.pbf", HOME), c10::blobs(o, &c10::PLAIN).concat());
    f.insert(format!("{}/plan", TOOL), "contract".into());
    // the routes are given to a query on the contracted graph as well
    let ch = String::from_utf8(f[&format!("{}/ch.fmi.yaml", HOME)].clone()).expect("harness: config");
    let with = ch.replacen("routing:\n", &format!("routing:\n  route-pairs-file: '{}/{}'\n", HOME, MADE[3]), 1);
    f.insert(format!("{}/ch_routes.fmi.yaml", HOME), with.into());
    f
}

/// an fmi-file as rows of columns: nodes, edges by id
type Rows = (Vec<Vec<String>>, BTreeMap<i64, Vec<String>>);

fn num(s: &str) -> Result<f64, String> {
    s.parse().map_err(|_| format!("{} is no number", s))
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1e-3 + a.abs().max(b.abs()))
}

/// Are these the map's streets? `m`: which numbers are wanted per street, from column 3 on. Returns edges by id.
fn same_map(w: &World, f: &Rows, by_idx: bool, m: &dyn Fn(&Street) -> Vec<f64>) -> Result<BTreeMap<i64, (i64, i64)>, String> {
    let mut ids = vec![];
    for (i, n) in f.0.iter().enumerate() {
        let id = num(&n[1])? as i64;
        let c = w.nodes.get(&id).ok_or(format!("node {:?} is not part of the map", n))?;
        if n[0] != i.to_string() || !near(num(&n[2])?, c[0]) || !near(num(&n[3])?, c[1]) {
            return Err(format!("node {} is {:?} instead of {:?}", i, n, c));
        }
        ids.push(id);
    }
    if ids.iter().collect::<BTreeSet<_>>().len() != w.nodes.len() || ids.len() != w.nodes.len() {
        return Err(format!("nodes {:?} instead of {:?}", ids, w.nodes));
    }
    let mut r = BTreeMap::new();
    for (id, x) in &f.1 {
        let end = |s: &str| -> Result<i64, String> {
            let v = num(s)? as i64;
            if by_idx {
                ids.get(v as usize).copied().ok_or(format!("there is no node {}", v))
            } else {
                Ok(v)
            }
        };
        let (s, t) = (end(&x[1])?, end(&x[2])?);
        let want = m(w.street(s, t).ok_or(format!("there is no street for {:?}", x))?);
        for (k, v) in want.iter().enumerate() {
            if !close(num(&x[3 + k])?, *v) {
                return Err(format!("edge {:?} should have {:?}", x, want));
            }
        }
        r.insert(*id, (s, t));
    }
    let seen: BTreeSet<&(i64, i64)> = r.values().collect();
    if seen.len() != w.streets.len() || r.len() != w.streets.len() {
        return Err(format!("edges {:?} instead of {:?}", r, w.streets));
    }
    Ok(r)
}

fn columns(f: Rows, nodes: usize) -> Result<Rows, String> {
    match f.0.iter().find(|n| n.len() != nodes) {
        Some(n) => Err(format!("{} columns expected in {:?}", nodes, n)),
        None => Ok(f),
    }
}

/// costs told for each pair
fn told(log: &str) -> Result<BTreeMap<(i64, i64), Vec<f64>>, String> {
    let mut m = BTreeMap::new();
    for line in log.lines() {
        if line.contains("No path") {
            return Err(line.to_string());
        }
        if line.contains("Path costs") {
            let ids = cli::numbers_after(line, "id: ");
            let costs = cli::list_after(line, "Path costs");
            match (ids.as_slice(), costs) {
                ([s, t], Some(c)) => {
                    if m.insert((*s, *t), c).is_some() {
                        return Err(format!("told twice: {}", line));
                    }
                }
                _ => return Err(format!("two nodes and costs expected: {}", line)),
            }
        }
    }
    Ok(m)
}

fn judge_told(w: &World, log: &str, show: &[usize], by: &[usize]) -> Verdict {
    let got = told(log)?;
    if got.keys().copied().collect::<BTreeSet<_>>() != w.pairs() {
        return Err(format!("told about {:?} instead of {:?}", got, w.pairs()));
    }
    for ((s, t), c) in &got {
        let sums: Vec<Vec<f64>> = w.paths(*s, *t).iter().map(|p| (0..4).map(|k| p.iter().map(|i| w.streets[*i].m[k]).sum()).collect()).collect();
        let cost = |v: &Vec<f64>| by.iter().map(|k| v[*k]).sum::<f64>();
        let best = sums.iter().map(cost).fold(f64::INFINITY, f64::min);
        let ok = sums.iter().any(|v| close(cost(v), best) && c.len() == show.len() && show.iter().zip(c).all(|(k, x)| close(v[*k], *x)));
        if !ok {
            return Err(format!("told for {} to {} is {:?}, possible are {:?}", s, t, c, sums));
        }
    }
    Ok(())
}

/// values by edge-id
fn table(bytes: Option<&Vec<u8>>, header: &str) -> Result<BTreeMap<i64, Vec<f64>>, String> {
    let text = String::from_utf8_lossy(bytes.ok_or(format!("the table of {} is missing", header))?).into_owned();
    let mut lines = text.lines();
    if lines.next() != Some(header) {
        return Err(format!("header '{}' is missing: {}", header, text));
    }
    let mut m = BTreeMap::new();
    for x in lines {
        let v: Vec<f64> = x.split_whitespace().map(num).collect::<Result<_, _>>()?;
        if v.len() != header.split(' ').count() || m.insert(v[0] as i64, v[1..].to_vec()).is_some() {
            return Err(format!("line {} in {}", x, text));
        }
    }
    Ok(m)
}

/// Do workloads come from routes of the pairs? `exact`: costs are the best ones; hours are tolerated up to 1.4.
fn judge_loads(w: &World, net: &Net, loads: &BTreeMap<i64, Vec<f64>>, by: &[usize], exact: bool) -> Verdict {
    if loads.keys().collect::<Vec<_>>() != net.keys().collect::<Vec<_>>() {
        return Err(format!("workloads {:?} for edges {:?}", loads, net));
    }
    let pairs = w.pairs();
    // what comes in goes out
    for n in w.nodes.keys() {
        let flow: f64 = net.iter().map(|(id, e)| loads[id][0] * ((e.0 == *n) as i32 - (e.1 == *n) as i32) as f64).sum();
        let want: i32 = pairs.iter().map(|p| (p.0 == *n) as i32 - (p.1 == *n) as i32).sum();
        if flow != want as f64 {
            return Err(format!("{} more routes leave than enter {}, it should be {}: {:?}", flow, n, want, loads));
        }
    }
    let by_ends: BTreeMap<(i64, i64), [f64; 3]> = net.values().map(|e| ((e.0, e.1), e.2)).collect();
    let cost = |e: &[f64; 3], by: &[usize]| by.iter().map(|k| e[*k]).sum::<f64>();
    let best = |by: &[usize]| -> f64 {
        pairs
            .iter()
            .map(|p| w.paths(p.0, p.1).iter().map(|x| x.iter().map(|i| cost(&by_ends[&(w.streets[*i].src, w.streets[*i].dst)], by)).sum::<f64>()).fold(f64::INFINITY, f64::min))
            .sum()
    };
    let real = |by: &[usize]| -> f64 { net.iter().map(|(id, e)| loads[id][0] * cost(&e.2, by)).sum() };
    if loads.values().any(|v| v[0] < 0.0) || real(by) < best(by) - 1e-6 {
        return Err(format!("workloads {:?} are too small", loads));
    }
    if exact && !close(real(by), best(by)) {
        return Err(format!("workloads {:?} cost {}, best is {}", loads, real(by), best(by)));
    }
    if !exact && real(&[1]) > 1.4 * best(&[1]) + 1e-6 {
        return Err(format!("workloads {:?} take {} hours, tolerated are 1.4 x {}", loads, real(&[1]), best(&[1])));
    }
    Ok(())
}

/// Are these vehicles the workloads?
fn judge_cars(w: &World, net: &Net, loads: &BTreeMap<i64, Vec<f64>>, cars: &[(String, Vec<i64>)], by: &[usize], exact: bool) -> Verdict {
    let of: BTreeMap<(i64, i64), i64> = net.iter().map(|(id, e)| ((e.0, e.1), *id)).collect();
    let mut sum: BTreeMap<i64, f64> = net.keys().map(|id| (*id, 0.0)).collect();
    let mut left = w.pairs();
    for (name, nodes) in cars {
        let ends = (nodes[0], nodes[nodes.len() - 1]);
        if *name != format!("{}->{}", ends.0, ends.1) || !left.remove(&ends) {
            return Err(format!("vehicle {} drives {:?}", name, nodes));
        }
        let ids: Vec<i64> = nodes.windows(2).map(|p| of.get(&(p[0], p[1])).copied().ok_or(format!("vehicle {} leaves the streets: {:?}", name, nodes))).collect::<Result<_, _>>()?;
        let cost = |ids: &[i64], by: &[usize]| ids.iter().map(|i| by.iter().map(|k| net[i].2[*k]).sum::<f64>()).sum::<f64>();
        let all: Vec<Vec<i64>> = w.paths(ends.0, ends.1).iter().map(|p| p.iter().map(|i| of[&(w.streets[*i].src, w.streets[*i].dst)]).collect()).collect();
        let best = |by: &[usize]| all.iter().map(|p| cost(p, by)).fold(f64::INFINITY, f64::min);
        let fine = if exact { close(cost(&ids, by), best(by)) } else { cost(&ids, &[1]) <= best(&[1]) * 1.4 + 1e-6 };
        if !fine {
            return Err(format!("vehicle {} should not drive {:?}", name, nodes));
        }
        for i in ids {
            *sum.get_mut(&i).unwrap() += 1.0;
        }
    }
    if !left.is_empty() || sum.iter().any(|(id, x)| loads[id][0] != *x) {
        return Err(format!("vehicles {:?} are not the workloads {:?}", cars, loads));
    }
    Ok(())
}

fn cfg(name: &str) -> String {
    format!("{}/{}", HOME, name)
}

/// a step of the workflow
fn step(dir: &Path, bin: &str, which: &str, l: &mut Local) -> Result<cli::Ran, String> {
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let (b, file, flag) = match which {
        "fmi" => (Bin::Gpl, "pbf_to_fmi.yaml", "--writing_graph"),
        "for-ch" => (Bin::Gpl, "fmi_to_ch.yaml", "--writing_graph"),
        "ch" => (Bin::Mchc, "fmi_to_ch.yaml", ""),
        "pairs" => (Bin::Gpl, "ch.fmi.yaml", "--writing_route-pairs"),
        "routes" => (Bin::Gpl, "osm.pbf.yaml", "--routing"),
        "ch-routes" => (Bin::Gpl, "ch_routes.fmi.yaml", "--routing"),
        "balance" => (Bin::Gpl, "balancing/config.yaml", "--balancing"),
        other => (Bin::Gpl, other, "--evaluating_balance"),
    };
    let file = cfg(file);
    let mut args = vec!["--config", &file[..]];
    if !flag.is_empty() {
        args.push(flag);
    }
    cli::run(b, dir, &args, &[("PATH", bin)])
}

fn must(dir: &Path, bin: &str, which: &str, l: &mut Local) -> Result<cli::Ran, String> {
    let ran = step(dir, bin, which, l).map_err(|m| format!("{}: {}", which, m))?;
    if ran.ok {
        Ok(ran)
    } else {
        Err(format!("step {} fails: {}", which, ran.log))
    }
}

fn read(dir: &Path, name: &str) -> Option<Vec<u8>> {
    fs::read(dir.join(name)).ok()
}

fn whole(scratch: &Path, cfgs: &Files, o: &Osm, l: &mut Local) -> Verdict {
    let w = World::of(o);
    let dir = cli::fresh(scratch, l.worker);
    let mut known = inputs(cfgs, o);
    let bin = prepare(&dir, &known);
    let mark = |m: String| format!("{}\n{:?}", m, o.ways);
    if w.streets.is_empty() {
        // nothing to work on
        return Ok(());
    }
    let file = |name: &str, cols: usize, nodes: usize| -> Result<Rows, String> { columns(rows(read(&dir, &cfg(name)).as_ref(), name, cols)?, nodes) };

    // converted
    must(&dir, &bin, "fmi", l).map_err(mark)?;
    let ids = file("graph.fmi", 6, 4).and_then(|f| same_map(&w, &f, false, &|x| vec![x.m[2], x.m[3], x.m[1]])).map_err(|m| mark(format!("graph.fmi: {}", m)))?;
    must(&dir, &bin, "for-ch", l).map_err(mark)?;
    let again = file("graph_for_ch.fmi", 7, 6).and_then(|f| same_map(&w, &f, true, &|x| vec![x.m[2], x.m[3]])).map_err(|m| mark(format!("graph_for_ch.fmi: {}", m)))?;
    if again != ids {
        return Err(mark(format!("edge-ids {:?} have become {:?}", ids, again)));
    }
    must(&dir, &bin, "ch", l).map_err(mark)?;

    // routes
    must(&dir, &bin, "pairs", l).map_err(mark)?;
    let routes = read(&dir, &cfg(MADE[3])).and_then(|b| read_routes(&b)).ok_or_else(|| mark("no route-pairs have been written".into()))?;
    let got: BTreeSet<(i64, i64)> = routes.iter().map(|x| (x.0, x.1)).collect();
    if got != w.pairs() || got.len() != routes.len() || routes.iter().any(|x| x.2 != 1) {
        return Err(mark(format!("route-pairs {:?} instead of {:?}", routes, w.pairs())));
    }
    let ran = must(&dir, &bin, "routes", l).map_err(mark)?;
    judge_told(&w, &ran.log, &[0, 1, 2, 3], &[2, 3]).map_err(|m| mark(format!("{}\n{}", m, ran.log)))?;
    let ran = must(&dir, &bin, "ch-routes", l).map_err(mark)?;
    judge_told(&w, &ran.log, &[2, 3], &[3]).map_err(|m| mark(format!("contracted: {}\n{}", m, ran.log)))?;

    // balanced
    let ran = must(&dir, &bin, "balance", l).map_err(mark)?;
    let results = fs::read_dir(dir.join(RESULTS)).map_err(|e| mark(e.to_string()))?.map(|x| x.unwrap().file_name().to_string_lossy().into_owned()).collect::<Vec<_>>();
    if results.len() != 1 || !dated(&results[0]) {
        return Err(mark(format!("results are in {:?}", results)));
    }
    let root = format!("{}/{}", RESULTS, results[0]);
    let get = |name: &str| read(&dir, &format!("{}/{}", root, name));
    let (net, lanes) = judge_balance(&w, &ids, &get).map_err(|m| mark(format!("{}\n{}", m, ran.log)))?;

    // evaluated
    let eval = format!("{}/evaluation", root);
    fs::create_dir_all(dir.join(&eval)).expect("scratch");
    fs::copy(dir.join(cfg(MADE[3])), dir.join(&eval).join("10_000_eval.route-pairs")).expect("scratch");
    for algo in ["dijkstra", "explorator"] {
        for i in 0..2 {
            let name = format!("balancing/evaluation/{}/{}/config.yaml", algo, i);
            let text = String::from_utf8(known[&cfg(&name)].clone()).expect("harness: config").replace("utc_YYYY-mm-dd_HH-MM-SS", &results[0]);
            let new = format!("{}-{}.yaml", algo, i);
            fs::write(dir.join(cfg(&new)), &text).expect("scratch");
            known.insert(cfg(&new), text.into());
            must(&dir, &bin, &new, l).map_err(mark)?;
            let at = |x: &str| format!("evaluation/{}/{}/stats/{}", algo, i, x);
            let by: &[usize] = if i == 0 { &[0, 1] } else { &[0, 1, 2] };
            let exact = algo == "dijkstra";
            (|| {
                let loads = table(get(&at("abs_workloads.csv")).as_ref(), "edge-id num_routes")?;
                judge_loads(&w, &net, &loads, by, exact)?;
                judge_info(&w, &net, &lanes, &table(get(&at("edges-info.csv")).as_ref(), INFO)?)?;
                let cars = vehicles(&get(&at("smarts.xml")).ok_or("no vehicles have been written")?)?;
                judge_cars(&w, &net, &loads, &cars, by, exact)
            })()
            .map_err(|m: String| mark(format!("evaluation of {} {}: {}", algo, i, m)))?;
        }
    }

    // what has been there is still there
    let (after, _) = collect(&dir);
    for (k, v) in &known {
        if after.get(k) != Some(v) {
            return Err(mark(format!("{} has been changed", k)));
        }
    }
    if let Some(k) = after.keys().find(|k| !known.contains_key(*k) && !k.starts_with(&root) && !MADE.iter().any(|m| **k == cfg(m))) {
        return Err(mark(format!("{} should not have been written", k)));
    }
    l.outcome(&(w.streets.len(), w.pairs().len(), net.values().map(|e| (e.2[2] * 1e4) as i64).collect::<Vec<_>>()));
    l.sample(|| format!("{:?}: {} streets, {} pairs, balanced {:?}", o.ways, w.streets.len(), w.pairs().len(), net));
    Ok(())
}

const INFO: &str = "edge-id src-lat src-lon dst-lat dst-lon kilometers lane-count";

fn judge_info(w: &World, net: &Net, lanes: &BTreeMap<i64, f64>, info: &BTreeMap<i64, Vec<f64>>) -> Verdict {
    if info.len() != net.len() {
        return Err(format!("infos {:?} about {:?}", info, net));
    }
    for (id, v) in info {
        let e = net.get(id).ok_or(format!("there is no edge {}", id))?;
        let (s, t) = (w.nodes[&e.0], w.nodes[&e.1]);
        let want = [s[0], s[1], t[0], t[1], e.2[0], lanes[id]];
        if !v.iter().zip(&want).all(|(a, b)| close(*a, *b)) {
            return Err(format!("info {:?} about edge {} should be {:?}", v, id, want));
        }
    }
    Ok(())
}

/// Returns the balanced network and its lanes, all normalized.
fn judge_balance(w: &World, ids: &BTreeMap<i64, (i64, i64)>, get: &dyn Fn(&str) -> Option<Vec<u8>>) -> Result<(Net, BTreeMap<i64, f64>), String> {
    let mean = |k: usize| w.streets.iter().map(|x| x.m[k]).sum::<f64>() / w.streets.len() as f64;
    let (lane, km, h) = (mean(1), mean(2), mean(3));
    let lanes: BTreeMap<i64, f64> = ids.iter().map(|(id, e)| (*id, w.street(e.0, e.1).unwrap().m[1] / lane)).collect();
    let mut net: Net = ids
        .iter()
        .map(|(id, e)| {
            let m = w.street(e.0, e.1).unwrap().m;
            (*id, (e.0, e.1, [m[2] / km, m[3] / h, 1.0]))
        })
        .collect();
    let job = Job::averaging(0.1);
    debug_assert!(job.method == Method::Averaging);
    let updates = 2;
    for iter in 0..=updates {
        let at = |m: String| format!("iteration {}: {}", iter, m);
        let file = |n: &str| get(&format!("{}/{}", iter, n));
        let dim = if iter == 0 { 2 } else { 3 };
        if iter == updates {
            let f = columns(rows(get("balanced_graph.fmi").as_ref(), "balanced_graph.fmi", 8)?, 4)?;
            let e = same_map(w, &f, false, &|x| vec![x.m[2] / km, x.m[3] / h, x.m[1] / lane])?;
            if e != *ids {
                return Err(format!("edge-ids {:?} have become {:?}", ids, e));
            }
            for (id, x) in &f.1 {
                if !close(num(&x[6])?, net[id].2[2]) || !close(num(&x[7])?, net[id].2[0]) {
                    return Err(format!("balanced is {:?}, it should be {:?}", x, net[id]));
                }
            }
        }
        let f = columns(rows(file("graph.fmi").as_ref(), "graph.fmi", 5 + dim).map_err(at)?, 6).map_err(at)?;
        let e = same_map(w, &f, true, &|x| vec![x.m[2] / km, x.m[3] / h]).map_err(at)?;
        if e != *ids {
            return Err(at(format!("edge-ids {:?} have become {:?}", ids, e)));
        }
        for (id, x) in f.1.iter().filter(|_| dim == 3) {
            if !close(num(&x[5])?, net[id].2[2]) {
                return Err(at(format!("the tool is given {:?}, it should be {:?}", x, net[id])));
            }
        }
        let side = table(file("edges-info.csv").as_ref(), "edge-id lane-count dummy").map_err(at)?;
        if side.len() != net.len() || !side.iter().all(|(id, v)| net.get(id).map_or(false, |e| close(v[0], lanes[id]) && close(v[1], e.2[0]))) {
            return Err(at(format!("infos beside the tool: {:?}", side)));
        }
        let ch = Fmi::read(&file("graph.ch.fmi").ok_or_else(|| at("the contracted graph is missing".into()))?).map_err(at)?;
        let shortcuts: Vec<f64> = ch.edges.iter().filter(|e| e[e.len() - 1] != "-1").map(|e| if dim == 2 { 1.0 } else { e[5].parse().unwrap() }).collect();
        let loads = table(file("stats/abs_workloads.csv").as_ref(), "edge-id num_routes").map_err(at)?;
        let by: &[usize] = if iter == 0 { &[0, 1] } else { &[0, 1, 2] };
        judge_loads(w, &net, &loads, by, false).map_err(at)?;
        judge_info(w, &net, &lanes, &table(file("stats/edges-info.csv").as_ref(), INFO).map_err(at)?).map_err(at)?;
        let flat: BTreeMap<i64, f64> = loads.iter().map(|(id, v)| (*id, v[0])).collect();
        match update(&net, &flat, &job, iter, shortcuts.len(), &mut shortcuts.clone()) {
            Update::To(new) => {
                if iter < updates {
                    net = new;
                }
            }
            _ => return Err(at("harness: no update".into())),
        }
    }
    Ok((net, lanes))
}

//------------------------------------------------------------------------------------------------//
// any order of the steps

const STEPS: [&str; 9] = ["fmi", "for-ch", "ch", "pairs", "routes", "balance", "rm 0", "rm 1", "rm 3"];

fn order(scratch: &Path, cfgs: &Files, made: &[Vec<u8>], o: &Osm, prefix: usize, todo: &[usize], l: &mut Local) -> Verdict {
    let dir = cli::fresh(scratch, l.worker);
    let mut want = inputs(cfgs, o);
    for i in 0..prefix {
        want.insert(cfg(MADE[i]), made[i].clone());
    }
    let bin = prepare(&dir, &want);
    for (n, s) in todo.iter().enumerate() {
        let name = STEPS[*s];
        let has = |w: &Files, i: usize| w.contains_key(&cfg(MADE[i]));
        let text = |m: String| format!("{} files made, then {:?}: {}", prefix, todo[..=n].iter().map(|s| STEPS[*s]).collect::<Vec<_>>(), m);
        if let Some(i) = name.strip_prefix("rm ") {
            let i: usize = i.parse().unwrap();
            if want.remove(&cfg(MADE[i])).is_some() {
                fs::remove_file(dir.join(cfg(MADE[i]))).expect("scratch");
            }
            continue;
        }
        // what is needed is there, what is made is not
        let ok = match name {
            "fmi" => !has(&want, 0),
            "for-ch" => has(&want, 0) && !has(&want, 1),
            "ch" => has(&want, 1),
            "pairs" => has(&want, 2) && !has(&want, 3),
            "routes" => has(&want, 3),
            _ => has(&want, 0) && has(&want, 3),
        };
        let ran = step(&dir, &bin, name, l).map_err(text)?;
        if ran.ok != ok {
            return Err(text(format!("success is {}: {}", ran.ok, ran.log)));
        }
        if ok && *s < 4 {
            want.insert(cfg(MADE[*s]), made[*s].clone());
        }
        let mut got = cli::tree(&dir);
        got.retain(|k, _| !k.starts_with(RESULTS) && !k.starts_with("bin/") && (!k.starts_with(TOOL) || k.ends_with("/plan")));
        cli::same(&want, &got).map_err(text)?;
        if name == "balance" {
            let balanced = fs::read_dir(dir.join(RESULTS)).map_or(0, |d| d.filter(|x| x.as_ref().unwrap().path().join("balanced_graph.fmi").exists()).count());
            if (balanced > 0) != ok {
                return Err(text(format!("{} balanced graphs", balanced)));
            }
            let _ = fs::remove_dir_all(dir.join(RESULTS));
        }
    }
    l.outcome(&want.keys().cloned().collect::<Vec<_>>());
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let dir = &dir;
    let cfgs = &shipped();
    let all = pow(5, 5);
    c.family("maps", "all 3125 maps of 4 nodes and 5 ways (absent, residential, motorway, reversed secondary of 30 km/h, cycleway): all steps from the pbf-file to 4 evaluations of the balanced network", all, |i, l| -> Verdict { whole(dir, cfgs, &osm(i), l) });

    // reference for the orders: made step by step
    let o = osm(1 + 5 + 25 * 2 + 125 + 625 * 3);
    let at = dir.join("made");
    let bin = prepare(&at, &inputs(cfgs, &o));
    let mut l = Local::new(0);
    let made: Vec<Vec<u8>> = (0..4).map(|i| if must(&at, &bin, STEPS[i], &mut l).is_ok() { read(&at, &cfg(MADE[i])).unwrap_or_default() } else { vec![] }).collect();
    let _ = fs::remove_dir_all(&at);
    let made = &made;
    let len = c.pick(3, 4);
    c.family("orders", "all sequences of 3 (thorough: 4) steps (making the 4 files, routing, balancing, removing a file) after 0 to 4 files have been made: a step succeeds iff its input is there and its output is not, and changes nothing else", 5 * pow(9, len), |i, l| -> Verdict {
        let mut d = Dig(i);
        let prefix = d.take(5) as usize;
        let todo: Vec<usize> = (0..len).map(|_| d.take(9) as usize).collect();
        order(dir, cfgs, made, &o, prefix, &todo, l)
    });
}
