//! C24: the number of inlined metrics, chosen when building, decides what is accepted and nothing else.
use crate::{
    c08::sphere,
    c20::read_routes,
    cli::{self, Bin, Files},
    engine::{pow, Ctx, Dig, Local, Verdict},
    model::{close, dot, N},
};
use std::{collections::BTreeMap, path::PathBuf};

const NODES: [(i64, f64, f64); 5] = [(10, 48.5, 9.0), (20, 48.25, 9.5), (30, 48.0, 9.25), (40, 47.5, 9.75), (50, 47.0, 9.0)];
/// edge-id, from, to
const ARCS: [(i64, i64, i64); 7] = [(100, 10, 20), (101, 20, 30), (102, 10, 30), (103, 30, 10), (104, 40, 10), (105, 40, 30), (106, 50, 40)];
/// (src, dst, count)
const ROUTES: [(i64, i64, usize); 4] = [(10, 30, 2), (40, 20, 1), (10, 40, 3), (50, 10, 1)];
/// the metrics of the map, a config takes the first some
const METRICS: [(&str, &str, [f64; 7]); 8] = [
    ("km", "Kilometers", [1.0, 2.0, 8.0, 4.0, 16.0, 1.5, 2.5]),
    ("kmph", "KilometersPerHour", [32.0, 16.0, 64.0, 8.0, 128.0, 32.0, 64.0]),
    ("toll", "F64", [8.0, 1.0, 1.25, 4.5, 2.0, 2.75, 2.125]),
    ("lanes", "LaneCount", [1.0, 2.0, 3.0, 1.0, 4.0, 2.0, 1.0]),
    ("m", "Meters", [512.0, 256.0, 640.0, 130.0, 4.0, 2000.5, 7.0]),
    ("sec", "Seconds", [60.5, 30.25, 128.0, 3.0, 9.0, 27.0, 81.5]),
    ("f2", "F64", [0.5, 0.25, 0.125, 4.0, 6.0, 9.5, 3.25]),
    ("h", "Hours", [2.0, 4.5, 8.25, 16.0, 1.0, 3.0, 5.0]),
];
const MERGED: [f64; 7] = [3.5, 2.5, 9.0, 7.5, 1.0, 0.5, 4.0];
const FLAGS: [&str; 4] = ["--writing_graph", "--writing_edges", "--writing_route-pairs", "--routing"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Custom,
    Haversine,
    Copy,
    Calc,
    Convert,
    Meta,
    Merge,
}
use Op::*;
const OPS: [Op; 7] = [Custom, Haversine, Copy, Calc, Convert, Meta, Merge];

#[derive(Clone, Debug)]
struct Col {
    id: String,
    unit: &'static str,
    v: Vec<f64>,
}

/// a config and what it means
#[derive(Clone, Debug)]
struct Setup {
    data: usize,
    /// by which the values of metrics are shifted
    turn: usize,
    ops: Vec<Op>,
    gen: String,
    /// when all is read and generated
    cols: Vec<Col>,
    metas: Vec<String>,
}

impl Setup {
    /// None, if something is taken which is not there
    fn new(data: usize, ops: &[Op], turn: usize) -> Option<Setup> {
        let mut s = Setup {
            data,
            ops: ops.to_vec(),
            gen: String::new(),
            cols: METRICS[..data].iter().enumerate().map(|(j, x)| Col { id: x.0.into(), unit: x.1, v: (0..7).map(|i| x.2[(i + turn * j) % 7]).collect() }).collect(),
            turn,
            metas: vec![],
        };
        if !ops.is_empty() {
            s.gen += "  generating:\n    nodes: []\n    edges:\n";
        }
        for (p, op) in ops.iter().enumerate() {
            let name = |c: &str| format!("{}{}", c, p);
            let line = match op {
                Custom => {
                    s.cols.push(Col { id: name("c"), unit: "F64", v: vec![3.5 + p as f64; 7] });
                    format!("custom: {{ unit: F64, id: {}, default: {:?} }}", name("c"), 3.5 + p as f64)
                }
                Haversine => {
                    let at = |id: i64| NODES.iter().find(|x| x.0 == id).map(|x| N { id, lat: x.1, lon: x.2, level: None }).unwrap();
                    s.cols.push(Col { id: name("hav"), unit: "Kilometers", v: ARCS.iter().map(|a| sphere(&at(a.1), &at(a.2))).collect() });
                    format!("haversine: {{ unit: Kilometers, id: {} }}", name("hav"))
                }
                Copy | Convert => {
                    let i = s.cols.iter().position(|c| c.unit == "Kilometers" || c.unit == "Meters")?;
                    let c = &s.cols[i];
                    let (to, f) = if c.unit == "Meters" { ("Kilometers", 0.001) } else { ("Meters", 1000.0) };
                    let id = name(if *op == Copy { "k" } else { "v" });
                    let line = format!("{}: {{ from: {{ unit: {}, id: {} }}, to: {{ unit: {}, id: {} }} }}", if *op == Copy { "copy" } else { "convert" }, c.unit, c.id, to, id);
                    let new = Col { id, unit: to, v: c.v.iter().map(|x| x * f).collect() };
                    if *op == Copy {
                        s.cols.push(new);
                    } else {
                        s.cols[i] = new;
                    }
                    line
                }
                Calc => {
                    let (a, b) = (s.cols.iter().position(|c| c.unit == "Kilometers")?, s.cols.iter().position(|c| c.unit == "KilometersPerHour")?);
                    let (a, b) = (s.cols[a].clone(), s.cols[b].clone());
                    s.cols.push(Col { id: name("t"), unit: "Minutes", v: (0..7).map(|i| a.v[i] / b.v[i] * 60.0).collect() });
                    format!("calc: {{ result: {{ unit: Minutes, id: {} }}, a: {{ unit: Kilometers, id: {} }}, b: {{ unit: KilometersPerHour, id: {} }} }}", name("t"), a.id, b.id)
                }
                Meta => {
                    let info = *["SrcIdx", "DstIdx", "SrcLat", "DstLon", "SrcLon", "DstLat"].get(s.metas.len())?;
                    s.metas.push(name("meta"));
                    format!("meta: {{ info: {}, id: {} }}", info, name("meta"))
                }
                Merge => {
                    let i = s.cols.iter().rposition(|c| c.unit == "F64")?;
                    s.cols[i].v = MERGED.iter().map(|x| x + p as f64).collect();
                    format!("merge: {{ from: '{}.csv', edge-id: edge-id, edges-info: [ {{ id: edge-id }}, {{ id: {} }} ] }}", name("merge"), s.cols[i].id)
                }
            };
            s.gen += &format!("    - {}\n", line);
        }
        Some(s)
    }

    fn dim(&self) -> usize {
        self.cols.len()
    }

    fn alphas(&self) -> Vec<f64> {
        (0..self.dim()).map(|i| [1.0, 0.5, 2.0, 0.25, 0.75, 1.5, 0.125, 3.0][i % 8]).collect()
    }

    fn cfg(&self, algo: &str, more: &str) -> String {
        let mut s = String::from(
            "parsing:
  map-file: in.fmi
  nodes:
  - meta: { info: NodeId, id: node-id }
  - metric: { unit: Latitude, id: lat }
  - metric: { unit: Longitude, id: lon }
  edges:
    data:
    - meta: { info: EdgeId, id: edge-id }
    - meta: { info: SrcId, id: src-id }
    - meta: { info: DstId, id: dst-id }
",
        );
        for x in &METRICS[..self.data] {
            s += &format!("    - metric: {{ unit: {}, id: {} }}\n", x.1, x.0);
        }
        s += &self.gen;
        s += &format!("routing:\n  route-pairs-file: in.route-pairs\n  algorithm: {}\n  metrics: [ ", algo);
        s += &self.cols.iter().zip(self.alphas()).map(|(c, a)| format!("{{ id: {}, alpha: {:?} }}", c.id, a)).collect::<Vec<_>>().join(", ");
        let ids: String = self.metas.iter().cloned().chain(self.cols.iter().map(|c| c.id.clone())).map(|id| format!(", {{ id: {} }}", id)).collect();
        s += &format!(
            " ]
writing:
  graph:
    map-file: new.fmi
    nodes: [ {{ id: node-id }}, {{ id: lat }}, {{ id: lon }} ]
    edges:
      ids: [ {{ id: edge-id }}, {{ id: src-id }}, {{ id: dst-id }}{} ]
  edges-info: {{ file: new.csv, ids: [ {{ id: edge-id }}, {{ id: src-id }}, {{ id: dst-id }}{} ] }}
  route-pairs: {{ file: new.route-pairs, random_or_all: {{ seed: 3, max_count: 5 }} }}
",
            ids, ids
        );
        s + more
    }

    fn inputs(&self, algo: &str, more: &str) -> Files {
        let mut map = format!("{}\n{}\n", NODES.len(), ARCS.len());
        for x in &NODES {
            map += &format!("{} {:?} {:?}\n", x.0, x.1, x.2);
        }
        for (i, a) in ARCS.iter().enumerate() {
            map += &format!("{} {} {}", a.0, a.1, a.2);
            for (j, m) in METRICS[..self.data].iter().enumerate() {
                map += &format!(" {:?}", m.2[(i + self.turn * j) % 7]);
            }
            map += "\n";
        }
        let mut f = Files::new();
        f.insert("in.fmi".into(), map.into());
        f.insert("in.route-pairs".into(), ROUTES.iter().fold(format!("{}\n", ROUTES.len()), |s, x| s + &format!("{} {} {}\n", x.0, x.1, x.2)).into());
        f.insert("cfg.yaml".into(), self.cfg(algo, more).into());
        for (p, _) in self.ops.iter().enumerate().filter(|x| *x.1 == Merge) {
            let id = "edge-id value\n".to_string();
            f.insert(format!("merge{}.csv", p), ARCS.iter().enumerate().fold(id, |s, (i, a)| s + &format!("{} {:?}\n", a.0, MERGED[i] + p as f64)).into());
        }
        f
    }

    /// Are the columns of a row, after edge-id, source and destination, those of the config?
    fn row(&self, w: &[&str], seen: &mut Vec<i64>) -> Result<(), String> {
        let num = |i: usize| w.get(i).and_then(|s| s.parse::<f64>().ok()).ok_or(format!("no number at {} in {:?}", i, w));
        let id = num(0)? as i64;
        let i = ARCS.iter().position(|a| a.0 == id).ok_or(format!("unknown edge {:?}", w))?;
        if (num(1)? as i64, num(2)? as i64) != (ARCS[i].1, ARCS[i].2) || w.len() != 3 + self.metas.len() + self.dim() {
            return Err(format!("edge {:?} should be {:?}", w, ARCS[i]));
        }
        for (k, c) in self.cols.iter().enumerate() {
            let got = num(3 + self.metas.len() + k)?;
            if !((got - c.v[i]).abs() <= 1e-6 * c.v[i].abs().max(1.0)) {
                return Err(format!("{} of edge {} is {}, but should be {}", c.id, id, got, c.v[i]));
            }
        }
        seen.push(id);
        Ok(())
    }

    fn graph(&self, bytes: &[u8]) -> Result<(), String> {
        let text = String::from_utf8_lossy(bytes).into_owned();
        let rows: Vec<Vec<&str>> = text.lines().filter(|s| !s.starts_with('#') && !s.trim().is_empty()).map(|s| s.split_whitespace().collect()).collect();
        let counts: Vec<usize> = rows.iter().take_while(|r| r.len() == 1).map(|r| r[0].parse().unwrap_or(99)).collect();
        if counts != [self.dim(), NODES.len(), ARCS.len()] || rows.len() != 3 + NODES.len() + ARCS.len() {
            return Err(format!("counts {:?} of\n{}", counts, text));
        }
        let mut seen = vec![];
        for r in &rows[3 + NODES.len()..] {
            self.row(r, &mut seen).map_err(|m| format!("{} in\n{}", m, text))?;
        }
        all(seen)
    }

    fn edges(&self, bytes: &[u8]) -> Result<(), String> {
        let text = String::from_utf8_lossy(bytes).into_owned();
        let mut seen = vec![];
        for r in text.lines().skip(1) {
            self.row(&r.split_whitespace().collect::<Vec<_>>(), &mut seen).map_err(|m| format!("{} in\n{}", m, text))?;
        }
        all(seen)
    }

    /// costs of all simple paths
    fn paths(&self, s: i64, t: i64) -> Vec<Vec<f64>> {
        fn go(me: &Setup, at: i64, t: i64, seen: &mut Vec<i64>, path: &mut Vec<usize>, out: &mut Vec<Vec<f64>>) {
            if at == t {
                out.push(me.cols.iter().map(|c| path.iter().map(|&i| c.v[i]).sum()).collect());
                return;
            }
            seen.push(at);
            for (i, a) in ARCS.iter().enumerate().filter(|x| x.1 .1 == at) {
                if !seen.contains(&a.2) {
                    path.push(i);
                    go(me, a.2, t, seen, path, out);
                    path.pop();
                }
            }
            seen.pop();
        }
        let mut out = vec![];
        go(self, s, t, &mut vec![], &mut vec![], &mut out);
        out
    }

    /// Are the found paths different ones of the map, the best one among them?
    fn explored(&self, log: &str) -> Verdict {
        let a = self.alphas();
        let like = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| close(*x, *y));
        for x in &ROUTES {
            let told: Vec<&str> = log.lines().filter(|s| s.contains("hop-distance") && cli::numbers_after(s, "-id: ") == [x.0, x.1]).collect();
            let all = self.paths(x.0, x.1);
            let mut got: Vec<Vec<f64>> = vec![];
            for s in &told {
                let c = cli::list_after(s, "costs").ok_or(format!("no costs: {}", s))?;
                if !all.iter().any(|p| like(p, &c)) || got.iter().any(|p| like(p, &c)) {
                    return Err(format!("{:?} is {} among {:?}", s, if got.iter().any(|p| like(p, &c)) { "found twice" } else { "no path" }, all));
                }
                got.push(c);
            }
            let ok = match self.best(x.0, x.1) {
                Some(b) => got.iter().any(|c| close(dot(c, &a), b)),
                None => got.is_empty(),
            };
            if !ok {
                return Err(format!("{:?}: found are {:?} out of {:?}", x, got, all));
            }
        }
        Ok(())
    }

    /// the smallest weighted costs
    fn best(&self, s: i64, t: i64) -> Option<f64> {
        let a = self.alphas();
        self.paths(s, t).iter().map(|c| dot(c, &a)).fold(None, |min: Option<f64>, c| Some(min.map_or(c, |m| m.min(c))))
    }

    fn routed(&self, log: &str) -> Verdict {
        let a = self.alphas();
        for x in &ROUTES {
            let of: Vec<&str> = log.lines().filter(|s| (s.contains("Path costs") || s.contains("No path")) && cli::numbers_after(s, "id: ") == [x.0, x.1]).collect();
            let want = self.best(x.0, x.1);
            let ok = match (of.len(), want) {
                (1, None) => of[0].contains("No path"),
                (1, Some(w)) => cli::list_after(of[0], "Path costs").map_or(false, |c| c.len() == a.len() && close(dot(&c, &a), w)),
                _ => false,
            };
            if !ok {
                return Err(format!("{:?} should have costs {:?}, told is {:?}", x, want, of));
            }
        }
        Ok(())
    }
}

fn all(mut seen: Vec<i64>) -> Verdict {
    seen.sort();
    if seen.iter().cloned().eq(ARCS.iter().map(|a| a.0)) {
        Ok(())
    } else {
        Err(format!("edges {:?} are written", seen))
    }
}

/// what is told, without time and level
fn said(log: &str, what: &[&str]) -> Vec<String> {
    log.lines().filter(|s| what.iter().any(|w| s.contains(w))).map(|s| s[s.find("] ").map_or(0, |i| i + 2)..].to_string()).collect()
}

struct Ran {
    ok: bool,
    /// new ones
    files: Files,
    log: String,
    args: String,
}

fn warned(log: &str) -> bool {
    log.lines().any(|s| s.contains("WARN") && (s.contains("GRAPH_DIM") || s.contains("metrics")))
}

/// Runs as built for `k` metrics, and judges what all modes have in common.
fn execute(w: &World, k: u8, s: &Setup, files: &Files, flags: &[&str], l: &mut Local) -> Result<Ran, String> {
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, files);
    let mut args = vec!["--config", "cfg.yaml"];
    args.extend(flags);
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let ran = cli::run(Bin::Dim(k), &dir, &args, &[])?;
    let text = |m: String| format!("built for {} metrics, {} read and {:?}, {:?}: {}\n{}{}", k, s.data, s.ops, args, m, ran.out, ran.log);
    let mut now = cli::tree(&dir);
    let fits = s.dim() <= k as usize;
    if ran.ok != fits {
        return Err(text(format!("{} metrics are {}", s.dim(), if fits { "refused" } else { "accepted" })));
    }
    if !fits {
        if ran.log.trim().is_empty() && ran.out.trim().is_empty() {
            return Err(text("says nothing".into()));
        }
        cli::same(files, &now).map_err(&text)?;
        return Ok(Ran { ok: false, files: Files::new(), log: String::new(), args: text(String::new()) });
    }
    if warned(&ran.log) != (s.dim() < k as usize) {
        return Err(text(format!("{} metrics: warning is {}", s.dim(), warned(&ran.log))));
    }
    for (k, v) in files {
        if now.remove(k).as_ref() != Some(v) {
            return Err(text(format!("{} has changed", k)));
        }
    }
    Ok(Ran { ok: true, files: now, args: text(String::new()), log: ran.log })
}

struct World {
    scratch: PathBuf,
    max: u8,
}

/// Does it for all builds; `judge` decides on the first accepting one, which all others have to equal.
fn sweep(w: &World, s: &Setup, algo: &str, more: &str, flags: &[&str], told: &[&str], judge: &dyn Fn(&Ran) -> Verdict, l: &mut Local) -> Verdict {
    let files = s.inputs(algo, more);
    let mut first: Option<(Ran, Vec<String>)> = None;
    for k in (1..=w.max).rev() {
        let ran = execute(w, k, s, &files, flags, l)?;
        if !ran.ok {
            continue;
        }
        let mut says = said(&ran.log, told);
        says.sort();
        match &first {
            None => {
                judge(&ran).map_err(|m| format!("{}: {}", m, ran.args))?;
                l.outcome(&(s.dim(), &ran.files, &says));
                l.sample(|| format!("{} read, {:?}, {:?}: {} of {} builds accept {} metrics, all with the same result", s.data, s.ops, flags, (w.max as usize + 1).saturating_sub(s.dim().max(1)), w.max, s.dim()));
                first = Some((ran, says));
            }
            Some((r, told)) => {
                cli::same(&r.files, &ran.files).map_err(|m| format!("depends on the number of metrics built for: {}: {}", m, ran.args))?;
                if *told != says {
                    return Err(format!("depends on the number of metrics built for: {:?} instead of {:?}: {}", says, told, ran.args));
                }
            }
        }
    }
    Ok(())
}

const EVAL: &str = "evaluating_balance:
  seed: 7
  number_of_threads: 1
  results-dir: results
  monitoring:
    edges-info: { file: 'edges-info.csv', ids: [ { id: edge-id }, { id: src-id } ] }
";

fn setups(len: u32, turn: usize) -> Vec<Setup> {
    let mut v = vec![];
    for n in 0..=len {
        for data in 0..=METRICS.len() {
            for idx in 0..pow(OPS.len() as u64, n) {
                let mut d = Dig(idx);
                let ops: Vec<Op> = (0..n).map(|_| OPS[d.take(OPS.len() as u64) as usize]).collect();
                if let Some(s) = Setup::new(data, &ops, turn) {
                    if s.dim() > 0 {
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

/// new.csv of a run without the results of evaluating
fn judge_eval(s: &Setup, r: &Ran) -> Verdict {
    let mut loads: Option<BTreeMap<i64, f64>> = None;
    for (name, bytes) in &r.files {
        let text = String::from_utf8_lossy(bytes).into_owned();
        if !name.starts_with("results/") {
            return Err(format!("{} should not have been written", name));
        }
        let rows: Option<Vec<(i64, f64)>> = text
            .lines()
            .skip(1)
            .map(|x| {
                let w: Vec<&str> = x.split_whitespace().collect();
                Some((w.get(0)?.parse().ok()?, w.get(1)?.parse().ok()?))
            })
            .collect();
        let rows = rows.ok_or(format!("{} is\n{}", name, text))?;
        all(rows.iter().map(|x| x.0).collect()).map_err(|m| format!("{} in {}", m, name))?;
        if name.contains("workload") {
            loads = Some(rows.into_iter().collect());
        }
    }
    let loads = loads.ok_or(format!("no workloads among {:?}", r.files.keys()))?;
    // what leaves a node, and does not come from somewhere else, starts there
    for n in NODES.iter().map(|x| x.0) {
        let sum = |out: bool| -> f64 { ARCS.iter().filter(|a| if out { a.1 == n } else { a.2 == n }).map(|a| loads[&a.0]).sum() };
        let flow = |out: bool| -> f64 { ROUTES.iter().filter(|x| if out { x.0 == n } else { x.1 == n } && s.best(x.0, x.1).is_some()).map(|x| x.2 as f64).sum() };
        if !close(sum(true) - sum(false), flow(true) - flow(false)) {
            return Err(format!("at node {}, {} leave and {} come, but {} start and {} end there: {:?}", n, sum(true), sum(false), flow(true), flow(false), loads));
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let max = std::env::var("MC_DIMS").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let w = &World { scratch: c.scratch().to_path_buf(), max };
    let made = setups(c.pick(3, 4), 0);
    let list = &made;
    c.family("writing-and-routing", "all numbers of read metrics from 0 to 8 x all lists of up to 3 (thorough: 4) generating steps out of 7 x programs built for 1 to 6 metrics: accepted if it fits, written and routed the same", list.len() as u64, |i, l| -> Verdict {
        let s = &list[i as usize];
        sweep(w, s, "Dijkstra", "", &FLAGS, &["Path costs", "No path"], &|r: &Ran| {
            let get = |n: &str| r.files.get(n).ok_or(format!("{} is missing", n));
            if r.files.len() != 3 {
                return Err(format!("written are {:?}", r.files.keys()));
            }
            s.graph(get("new.fmi")?)?;
            s.edges(get("new.csv")?)?;
            read_routes(get("new.route-pairs")?).ok_or("no route-pairs")?;
            s.routed(&r.log)
        }, l)
    });
    let made = setups(c.pick(1, 2), 0);
    let list = &made;
    let n = list.len() as u64;
    c.family("steps", "all 16 sets of requested steps x all numbers of read metrics x all lists of up to 1 (thorough: 2) generating steps x programs built for 1 to 6 metrics: refused without writing anything, or what is asked for", 16 * n, |i, l| -> Verdict {
        let (s, mask) = (&list[(i % n) as usize], i / n);
        let flags: Vec<&str> = (0..4).filter(|k| mask >> k & 1 == 1).map(|k| FLAGS[k]).collect();
        sweep(w, s, "Dijkstra", "", &flags, &["Path costs", "No path"], &|r: &Ran| {
            let want: Vec<&str> = ["new.csv", "new.fmi", "new.route-pairs"].iter().enumerate().filter(|(k, _)| mask >> [1, 0, 2][*k] & 1 == 1).map(|x| *x.1).collect();
            if !r.files.keys().eq(want.iter()) {
                return Err(format!("written are {:?} instead of {:?}", r.files.keys(), want));
            }
            if mask >> 3 & 1 == 1 {
                s.routed(&r.log)?;
            } else if !said(&r.log, &["Path costs", "No path"]).is_empty() {
                return Err("routes are told".into());
            }
            Ok(())
        }, l)
    });
    let made: Vec<Setup> = (0..7).flat_map(|t| setups(c.pick(1, 2), t)).collect();
    let list = &made;
    let n = list.len() as u64;
    let algos = ["Dijkstra", "CHDijkstra"];
    c.family("exploring", "all numbers of read metrics x all lists of up to 1 (thorough: 2) generating steps x 7 ways to put values to edges x programs built for 1 to 6 metrics, exploration of alternative routes by 2 algorithms", 2 * n, |i, l| -> Verdict {
        let s = &list[(i % n) as usize];
        let algo = format!("{{ Explorator: {{ algo: {} }} }}", algos[(i / n) as usize]);
        sweep(w, s, &algo, "", &["--routing"], &["Found", "hop-distance", "No path"], &|r: &Ran| s.explored(&r.log), l)
    });
    c.family("evaluating", "all numbers of read metrics x all lists of up to 1 (thorough: 2) generating steps x 7 ways to put values to edges x programs built for 1 to 6 metrics x Dijkstra, CH-Dijkstra, exploration by both: workloads of routes", 4 * n, |i, l| -> Verdict {
        let s = &list[(i % n) as usize];
        let (k, algo) = (i / n, algos[(i / n % 2) as usize]);
        let algo = if k < 2 { algo.to_string() } else { format!("{{ Explorator: {{ algo: {} }} }}", algo) };
        sweep(w, s, &algo, EVAL, &["--evaluating_balance"], &[], &|r: &Ran| judge_eval(s, r), l)
    });
}
