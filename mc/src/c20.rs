//! C20: what a call of the program does, step by step.
use crate::{
    cli::{self, Bin, Files},
    engine::{guard, perms, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{configs, io};
use std::{collections::BTreeMap, fs, path::Path};

const MAP: &str = "5\n7\n10 48.5 9.0\n20 48.25 9.5\n30 48.0 9.25\n40 47.5 9.75\n50 47.0 9.0\n\
    100 10 20 1 8\n101 20 30 2 1\n102 10 30 8 1\n103 30 10 4 4\n104 40 10 16 2\n105 40 30 1 2\n106 50 40 2 2\n";
/// (src, dst, count)
const ROUTES: [(i64, i64, usize); 4] = [(10, 30, 2), (40, 20, 1), (10, 40, 3), (50, 10, 1)];

fn routes_text(r: &[(i64, i64, usize)]) -> String {
    r.iter().fold(format!("# routes\n{}\n", r.len()), |s, x| s + &format!("{} {} {}\n", x.0, x.1, x.2))
}

pub fn parsing(map: &str) -> String {
    format!(
        "parsing:
  map-file: '{}'
  nodes:
  - meta: {{ info: NodeId, id: node-id }}
  - metric: {{ unit: Latitude, id: lat }}
  - metric: {{ unit: Longitude, id: lon }}
  edges:
    data:
    - meta: {{ info: EdgeId, id: edge-id }}
    - meta: {{ info: SrcId, id: src-id }}
    - meta: {{ info: DstId, id: dst-id }}
    - metric: {{ unit: Kilometers, id: km }}
    - metric: {{ unit: F64, id: toll }}
",
        map
    )
}

pub fn routing(file: &str, algo: &str, alphas: [f64; 2]) -> String {
    format!("routing:\n  route-pairs-file: '{}'\n  algorithm: {}\n  metrics:\n  - {{ id: km, alpha: {:?} }}\n  - {{ id: toll, alpha: {:?} }}\n", file, algo, alphas[0], alphas[1])
}

/// `dir` ends with / or is empty
pub fn writing(dir: &str, graph: bool, edges: bool, routes: bool) -> String {
    let mut s = String::new();
    if graph || edges || routes {
        s += "writing:\n";
    }
    if graph {
        s += &format!(
            "  graph:
    map-file: '{}new.fmi'
    nodes: [ {{ id: node-id }}, {{ id: lat }}, ignored, {{ id: lon }} ]
    edges:
      ids: [ {{ id: edge-id }}, {{ id: src-id }}, {{ id: dst-id }}, {{ id: toll }}, {{ id: km }} ]
",
            dir
        );
    }
    if edges {
        s += &format!("  edges-info: {{ file: '{}new.csv', ids: [ {{ id: edge-id }}, {{ id: km }} ] }}\n", dir);
    }
    if routes {
        s += &format!("  route-pairs: {{ file: '{}new.route-pairs', random_or_all: {{ seed: 3, max_count: 5 }} }}\n", dir);
    }
    s
}

pub const TARGETS: [&str; 3] = ["new.fmi", "new.csv", "new.route-pairs"];
const FLAGS: [&str; 4] = ["--writing_graph", "--writing_edges", "--writing_route-pairs", "--routing"];

/// what the writers of the library write, for each target
fn reference(dir: &Path) -> [Vec<u8>; 3] {
    let map = dir.join("ref.fmi");
    fs::write(&map, MAP).unwrap();
    let at = format!("{}/", dir.display());
    let text = parsing(&map.to_string_lossy()) + &routing("none.route-pairs", "Dijkstra", [1.0, 0.5]) + &writing(&at, true, true, true);
    let cfg = dir.join("ref.yaml");
    fs::write(&cfg, text).unwrap();
    let fail = |e| panic!("reference: {}", e);
    let g = io::network::graph::Parser::parse_and_finalize(configs::parsing::Config::from_yaml(&cfg)).unwrap_or_else(fail);
    io::network::graph::Writer::write(&g, &configs::writing::network::graph::Config::from_yaml(&cfg)).unwrap_or_else(|e| panic!("{}", e));
    io::network::edges::Writer::write(&g, &configs::writing::network::edges::Config::from_yaml(&cfg)).unwrap_or_else(|e| panic!("{}", e));
    let r = configs::routing::Config::try_from_yaml(&cfg, g.cfg()).unwrap_or_else(|e| panic!("{}", e));
    io::routing::Writer::write(&g, &r, &configs::writing::routing::Config::from_yaml(&cfg)).unwrap_or_else(|e| panic!("{}", e));
    let read = |s: &str| {
        let p = dir.join(s);
        let b = fs::read(&p).unwrap();
        fs::remove_file(&p).unwrap();
        // the name of the map may be told
        String::from_utf8(b).unwrap().replace(&*map.to_string_lossy(), "in.fmi").into_bytes()
    };
    let all = [read(TARGETS[0]), read(TARGETS[1]), read(TARGETS[2])];
    fs::remove_file(&map).unwrap();
    fs::remove_file(&cfg).unwrap();
    all
}

pub fn read_routes(bytes: &[u8]) -> Option<Vec<(i64, i64, usize)>> {
    let text = String::from_utf8_lossy(bytes);
    let mut lines = text.lines().filter(|s| !s.is_empty() && !s.starts_with('#'));
    let n: usize = lines.next()?.trim().parse().ok()?;
    let v: Option<Vec<_>> = lines
        .map(|s| {
            let w: Vec<&str> = s.split_whitespace().collect();
            Some((w.get(0)?.parse().ok()?, w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?))
        })
        .collect();
    v.filter(|v| v.len() == n)
}

pub type Arc5 = (i64, i64, i64, f64, f64);

pub fn arcs(map: &str) -> (Vec<i64>, Vec<Arc5>) {
    let mut lines = map.lines().map(|s| s.split_whitespace().collect::<Vec<_>>());
    let n: usize = lines.next().unwrap()[0].parse().unwrap();
    let m: usize = lines.next().unwrap()[0].parse().unwrap();
    let nodes = (0..n).map(|_| lines.next().unwrap()[0].parse().unwrap()).collect();
    let es = (0..m)
        .map(|_| {
            let w = lines.next().unwrap();
            (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap())
        })
        .collect();
    (nodes, es)
}

/// all simple paths
fn simple(es: &[Arc5], s: i64, t: i64, seen: &mut Vec<i64>, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if s == t {
        out.push(path.clone());
        return;
    }
    seen.push(s);
    for (i, x) in es.iter().enumerate() {
        if x.1 == s && !seen.contains(&x.2) {
            path.push(i);
            simple(es, x.2, t, seen, path, out);
            path.pop();
        }
    }
    seen.pop();
}

/// costs of the best paths from `s` to `t` and the paths themselves
fn best(es: &[Arc5], alphas: [f64; 2], s: i64, t: i64) -> Vec<(Vec<f64>, Vec<usize>)> {
    let mut all = vec![];
    simple(es, s, t, &mut vec![], &mut vec![], &mut all);
    let all: Vec<(Vec<f64>, Vec<usize>)> = all.into_iter().map(|p| (vec![p.iter().map(|&i| es[i].3).sum(), p.iter().map(|&i| es[i].4).sum()], p)).collect();
    let min = all.iter().map(|x| dot(&x.0, &alphas)).fold(f64::INFINITY, f64::min);
    all.into_iter().filter(|x| close(dot(&x.0, &alphas), min)).collect()
}

/// what the log says about routes
fn judge_log(log: &str, map: &str, alphas: [f64; 2], routes: &[(i64, i64, usize)]) -> Result<(), String> {
    let (_, es) = arcs(map);
    let mut told: BTreeMap<(i64, i64), Vec<Option<Vec<f64>>>> = BTreeMap::new();
    for line in log.lines() {
        let found = line.contains("Path costs");
        if found || line.contains("No path") {
            let ids = cli::numbers_after(line, "id: ");
            if ids.len() != 2 {
                return Err(format!("two nodes expected: {}", line));
            }
            let costs = if found { Some(cli::list_after(line, "Path costs").ok_or(format!("costs expected: {}", line))?) } else { None };
            told.entry((ids[0], ids[1])).or_default().push(costs);
        }
    }
    for x in routes.iter().filter(|x| x.0 != x.1) {
        let want = best(&es, alphas, x.0, x.1);
        let got = match told.get_mut(&(x.0, x.1)).and_then(|v| if v.is_empty() { None } else { Some(v.remove(0)) }) {
            Some(g) => g,
            None => return Err(format!("nothing is said about {:?}", x)),
        };
        let ok = match &got {
            None => want.is_empty(),
            Some(c) => want.iter().any(|w| c.len() == w.0.len() && c.iter().zip(&w.0).all(|(a, b)| close(*a, *b))),
        };
        if !ok {
            return Err(format!("{:?}: told is {:?}, best is {:?}", x, got, want));
        }
    }
    match told.iter().find(|(k, v)| k.0 != k.1 && !v.is_empty()) {
        Some(x) => Err(format!("nobody has asked for {:?}", x)),
        None => Ok(()),
    }
}

fn execute(bin: Bin, dir: &Path, args: &[&str], env: &[(&str, &str)], l: &mut Local) -> Result<cli::Ran, String> {
    l.step(1);
    l.eval(1);
    l.validated += 1;
    cli::run(bin, dir, args, env)
}

struct World {
    refs: [Vec<u8>; 3],
    scratch: std::path::PathBuf,
}

/// The steps in their order, the first failing one ends it.
/// `have`: is there a section for graph, edges, route-pairs, routing?
fn model(files: &mut Files, refs: &[Vec<u8>; 3], flags: u64, have: u64, routes_file: &str) -> (bool, Option<Vec<(i64, i64, usize)>>) {
    let on = |m: u64, i: usize| m >> i & 1 == 1;
    for i in 0..3 {
        if on(flags, i) {
            if !on(have, i) || (i == 2 && !on(have, 3)) || files.contains_key(TARGETS[i]) {
                return (false, None);
            }
            files.insert(TARGETS[i].into(), refs[i].clone());
        }
    }
    if on(flags, 3) {
        if !on(have, 3) {
            return (false, None);
        }
        match files.get(routes_file).and_then(|b| read_routes(b)) {
            Some(r) => return (true, Some(r)),
            None => return (false, None),
        }
    }
    (true, None)
}

fn steps(w: &World, bin: Bin, flags: u64, old: u64, have: u64, own: bool, l: &mut Local) -> Verdict {
    let on = |m: u64, i: usize| m >> i & 1 == 1;
    let routes_file = if own { TARGETS[2] } else { "in.route-pairs" };
    let alphas = [1.0, 0.5];
    let mut cfg = parsing("in.fmi");
    if on(have, 3) {
        cfg += &routing(routes_file, "Dijkstra", alphas);
    }
    cfg += &writing("", on(have, 0), on(have, 1), on(have, 2));
    let mut files = Files::new();
    files.insert("in.fmi".into(), MAP.into());
    files.insert("in.route-pairs".into(), routes_text(&ROUTES).into());
    files.insert("cfg.yaml".into(), cfg.into());
    for i in 0..3 {
        if on(old, i) {
            files.insert(TARGETS[i].into(), format!("old {}\n", i).into());
        }
    }
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let mut args = vec!["--config", "cfg.yaml"];
    for (i, f) in FLAGS.iter().enumerate() {
        if on(flags, i) {
            args.push(f);
        }
    }
    let text = |log: &str| format!("{:?} with {:?}, existing {:03b}, sections {:04b}\n{}", bin, args, old, have, log);
    let ran = execute(bin, &dir, &args, &[], l).map_err(|m| text(&m))?;
    let (ok, routed) = model(&mut files, &w.refs, flags, have, routes_file);
    if ran.ok != ok {
        return Err(format!("reports {}: {}", if ok { "failure, though nothing stands against it" } else { "success, though not all can be done" }, text(&ran.log)));
    }
    cli::same(&files, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text(&ran.log)))?;
    judge_log(&ran.log, MAP, alphas, routed.as_deref().unwrap_or(&[])).map_err(|m| format!("{}: {}", m, text(&ran.log)))?;
    l.outcome(&(ok, files.keys().cloned().collect::<Vec<_>>(), routed));
    l.sample(|| format!("{:?} with existing {:03b}, sections {:04b}: {}", args, old, have, if ok { "all done" } else { "ended by the first step which could not be done" }));
    Ok(())
}

fn refused(w: &World, bin: Bin, files: &Files, args: &[&str], l: &mut Local) -> Verdict {
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, files);
    let ran = execute(bin, &dir, args, &[], l)?;
    let text = || format!("{:?} with {:?}\n{}{}", bin, args, ran.out, ran.log);
    if ran.ok {
        return Err(format!("reports success: {}", text()));
    }
    if ran.log.is_empty() && ran.out.is_empty() {
        return Err(format!("says nothing: {}", text()));
    }
    cli::same(files, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text()))?;
    l.outcome(&ran.log.len());
    Ok(())
}

fn full_cfg(map: &str) -> String {
    parsing(map) + &routing("in.route-pairs", "Dijkstra", [1.0, 0.5]) + &writing("", true, true, true)
}

fn inputs() -> Files {
    let mut f = Files::new();
    f.insert("in.fmi".into(), MAP.into());
    f.insert("in.route-pairs".into(), routes_text(&ROUTES).into());
    f.insert("cfg.yaml".into(), full_cfg("in.fmi").into());
    f
}

fn broken(w: &World, bin: Bin, kind: u64, flags: u64, l: &mut Local) -> Verdict {
    let mut files = inputs();
    let mut name = "cfg.yaml";
    let cfg = |s: String| s.into_bytes();
    match kind {
        0 => drop(files.remove("in.fmi")),
        1 => drop(files.insert("in.fmi".into(), MAP[..MAP.len() / 2].into())),
        2 => drop(files.insert("in.fmi".into(), MAP.replace(" 8\n", " x\n").into())),
        3 => {
            let m = files.remove("in.fmi").unwrap();
            files.insert("in.txt".into(), m);
            files.insert("cfg.yaml".into(), cfg(full_cfg("in.txt")));
        }
        4 => drop(files.remove("cfg.yaml")),
        5 => {
            let c = files.remove("cfg.yaml").unwrap();
            files.insert("cfg.txt".into(), c);
            name = "cfg.txt";
        }
        6 => {
            files.remove("cfg.yaml");
            files.insert("cfg.yaml/some".into(), vec![]);
        }
        7 => drop(files.insert("cfg.yaml".into(), vec![])),
        8 => drop(files.insert("cfg.yaml".into(), cfg(full_cfg("in.fmi")[..40].into()))),
        9 => drop(files.insert("cfg.yaml".into(), cfg(full_cfg("in.fmi").replace("parsing:", "pausing:")))),
        10 => drop(files.insert("cfg.yaml".into(), cfg(full_cfg("in.fmi").replace("id: km }\n", "id: km\n")))),
        _ => drop(files.insert("cfg.yaml".into(), cfg(full_cfg("in.fmi").replace("unit: Kilometers", "unit: Miles")))),
    }
    let mut args = vec!["--config", name];
    for (i, f) in FLAGS.iter().enumerate() {
        if flags >> i & 1 == 1 {
            args.push(f);
        }
    }
    refused(w, bin, &files, &args, l)
}

const WORDS: [&[&str]; 14] = [
    &["--config", "cfg.yaml"],
    &["-c", "cfg.yaml"],
    &["--parsing", "cfg.yaml"],
    &["--writing_graph"],
    &["--log", "warn"],
    &["-l", "TRACE"],
    &["--log", "loud"],
    &["--bogus"],
    &["stray"],
    &["--balancing"],
    &["--evaluating_balance"],
    &["--config"],
    &["--help"],
    &["--version"],
];

fn arguments(w: &World, bin: Bin, words: &[usize], l: &mut Local) -> Verdict {
    let args: Vec<&str> = words.iter().flat_map(|&i| WORDS[i].iter().cloned()).collect();
    let has = |i: usize| words.contains(&i);
    // a value may be taken for another argument, and the first of several asks for help decides
    if has(11) || ((has(12) || has(13)) && (has(6) || has(7) || has(8))) {
        // not judged, except for: nothing is written without a config
        if (0..3).any(has) {
            return Ok(());
        }
        let dir = cli::fresh(&w.scratch, l.worker);
        let files = inputs();
        cli::put(&dir, &files);
        let ran = execute(bin, &dir, &args, &[], l)?;
        return cli::same(&files, &cli::tree(&dir)).map_err(|m| format!("{}: {:?}\n{}", m, args, ran.log));
    }
    let files = inputs();
    let help = has(12) || has(13);
    let configs = (0..3).filter(|&i| has(i)).count();
    let levels = (4..6).filter(|&i| has(i)).count();
    if !help && (configs != 1 || levels > 1 || has(6) || has(7) || has(8)) {
        return refused(w, bin, &files, &args, l);
    }
    if !help && bin == Bin::Plain && (has(9) || has(10)) {
        // not built in
        return refused(w, bin, &files, &args, l);
    }
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let ran = execute(bin, &dir, &args, &[], l)?;
    let mut want = files;
    if !help && has(3) {
        want.insert(TARGETS[0].into(), w.refs[0].clone());
    }
    // there are no sections for them
    let ok = help || !(has(9) || has(10));
    let text = || format!("{:?} with {:?}\n{}{}", bin, args, ran.out, ran.log);
    if ran.ok != ok {
        return Err(format!("success is {}: {}", ran.ok, text()));
    }
    if help && ran.out.is_empty() {
        return Err(format!("says nothing: {}", text()));
    }
    cli::same(&want, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text()))?;
    l.outcome(&(ok, want.len()));
    Ok(())
}

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];

fn levels(w: &World, bin: Bin, idx: u64, l: &mut Local) -> Verdict {
    let mut d = Dig(idx);
    let (level, style, env, fail) = (d.take(6) as usize, d.take(3), d.take(6) as usize, d.take(2) == 1);
    let mut files = inputs();
    if fail {
        files.remove("in.route-pairs");
    }
    let name = LEVELS.get(level).map(|s| match style {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s[..1].to_string() + &s[1..].to_lowercase(),
    });
    let mut args = vec!["-c", "cfg.yaml", "--routing", "--writing_edges"];
    if let Some(n) = &name {
        args.extend(&["--log", n.as_str()]);
    }
    let rust_log = LEVELS.get(env).map(|s| format!("osmgraphing={}", s.to_lowercase()));
    let vars: Vec<(&str, &str)> = rust_log.iter().map(|s| ("RUST_LOG", s.as_str())).collect();
    let effective = if env < 5 {
        env
    } else if level < 5 {
        level
    } else {
        2
    };
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let ran = execute(bin, &dir, &args, &vars, l)?;
    let text = || format!("{:?} {:?} {:?}\n{}", bin, args, vars, ran.log);
    if ran.ok == fail {
        return Err(format!("success is {}: {}", ran.ok, text()));
    }
    let mut want = files;
    want.insert(TARGETS[1].into(), w.refs[1].clone());
    cli::same(&want, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text()))?;
    if fail {
        if ran.log.is_empty() {
            return Err(format!("says nothing: {}", text()));
        }
    } else {
        let tells = (ran.log.contains("Path costs"), ran.log.contains("No path"));
        if tells != (effective >= 2, effective >= 1) {
            return Err(format!("tells of found and missing paths: {:?}: {}", tells, text()));
        }
        if effective == 0 && !ran.log.trim().is_empty() {
            return Err(format!("there was no error: {}", text()));
        }
        if effective >= 2 {
            judge_log(&ran.log, MAP, [1.0, 0.5], &ROUTES).map_err(|m| format!("{}: {}", m, text()))?;
        }
    }
    l.outcome(&(effective, fail));
    Ok(())
}

const IDS: [i64; 4] = [7, 3, 12, 1000000007];

/// arcs between n nodes, the costs make all sums distinct
pub fn small_map(n: usize, mask: u64, order: usize) -> String {
    let num = n * (n - 1);
    let mut es = vec![];
    for i in 0..num {
        if mask >> i & 1 == 1 {
            let s = i / (n - 1);
            let t = (s + 1 + i % (n - 1)) % n;
            let k = (i * 5 + order) % num;
            es.push(format!("{} {} {} {} {}\n", 900 - i, IDS[s], IDS[t], 1 << k, 1 << (num - 1 - k)));
        }
    }
    let nodes: String = (0..n).map(|i| format!("{} {} {}\n", IDS[i], 1 + i % 2, 1 + i / 2)).collect();
    format!("{}\n{}\n{}{}", n, es.len(), nodes, es.concat())
}

/// between nodes which are part of the network
fn all_pairs(map: &str) -> Vec<(i64, i64, usize)> {
    let mut v = vec![];
    let (_, es) = arcs(map);
    let known = |n: i64| es.iter().any(|x| x.1 == n || x.2 == n);
    for (i, s) in IDS.iter().enumerate() {
        for (j, t) in IDS.iter().enumerate() {
            if i != j && known(*s) && known(*t) {
                v.push((*s, *t, 1 + (i * 3 + j) % 3));
            }
        }
    }
    v
}

const ALPHAS: [[f64; 2]; 4] = [[1.0, 0.0], [0.0, 1.0], [1.0, 0.25], [0.25, 1.0]];

fn routes(w: &World, bin: Bin, n: usize, idx: u64, l: &mut Local) -> Verdict {
    let mut d = Dig(idx);
    let (mask, order, a, ch, strange) = (d.take(1 << (n * (n - 1))), d.take(3) as usize, ALPHAS[d.take(4) as usize], d.take(2) == 1, d.take(3));
    let map = small_map(n, mask, order * 2);
    let mut pairs = all_pairs(&map);
    // nodes which are not part of the network
    match strange {
        1 => pairs.push((7, 5, 1)),
        2 => pairs.insert(pairs.len() / 2, (5, 3, 1)),
        _ => (),
    }
    let mut files = Files::new();
    files.insert("in.fmi".into(), map.clone().into());
    files.insert("in.route-pairs".into(), routes_text(&pairs).into());
    let algo = if ch { "CHDijkstra" } else { "Dijkstra" };
    files.insert("cfg.yaml".into(), (parsing("in.fmi") + &routing("in.route-pairs", algo, a)).into());
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let ran = execute(bin, &dir, &["--config", "cfg.yaml", "--routing"], &[], l)?;
    let text = || format!("{:?}, {}, alphas {:?}, map\n{}\n{}", bin, algo, a, map, ran.log);
    if mask == 0 {
        // nothing to work on
        return Ok(());
    }
    if ran.ok != (strange == 0) {
        return Err(format!("success is {}: {}", ran.ok, text()));
    }
    if strange == 0 {
        judge_log(&ran.log, &map, a, &pairs).map_err(|m| format!("{}: {}", m, text()))?;
    }
    cli::same(&files, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text()))?;
    l.outcome(&ran.log.matches("No path").count());
    Ok(())
}

/// all small maps, with an explorator
fn explored(w: &World, n: usize, idx: u64, l: &mut Local) -> Verdict {
    let mut d = Dig(idx);
    let (mask, order, a, ch) = (1 + d.take((1 << (n * (n - 1))) - 1), d.take(3) as usize, ALPHAS[d.take(4) as usize], d.take(2) == 1);
    let map = small_map(n, mask, order * 2);
    let (pairs, es) = (all_pairs(&map), arcs(&map).1);
    let mut files = Files::new();
    files.insert("in.fmi".into(), map.clone().into());
    files.insert("in.route-pairs".into(), routes_text(&pairs).into());
    let algo = ALGOS[2 + ch as usize];
    files.insert("cfg.yaml".into(), (parsing("in.fmi") + &routing("in.route-pairs", algo, a)).into());
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let ran = execute(Bin::Gpl, &dir, &["--config", "cfg.yaml", "--routing"], &[], l)?;
    let text = || format!("{}, alphas {:?}, map\n{}\n{}", algo, a, map, ran.log);
    if !ran.ok {
        return Err(format!("reports failure: {}", text()));
    }
    // one answer per pair, in the order of the file
    let mut told: Vec<(usize, Option<Vec<i64>>, Vec<(Vec<i64>, Vec<f64>, usize)>)> = vec![];
    for line in ran.log.lines() {
        if line.contains("No path") {
            told.push((0, Some(cli::numbers_after(line, "id: ")), vec![]));
        } else if let Some(k) = cli::numbers_after(line, "Found ").first() {
            told.push((*k as usize, None, vec![]));
        } else if let (Some(c), Some(h)) = (cli::list_after(line, "costs"), cli::numbers_after(line, "hop-distance: ").first()) {
            if let Some(t) = told.last_mut() {
                t.2.push((cli::numbers_after(line, "id: "), c, *h as usize));
            }
        }
    }
    if told.len() != pairs.len() {
        return Err(format!("{} answers to {} pairs: {}", told.len(), pairs.len(), text()));
    }
    let mut v = told.iter();
    for x in &pairs {
        let mut all = vec![];
        simple(&es, x.0, x.1, &mut vec![], &mut vec![], &mut all);
        let all: Vec<([f64; 2], usize)> = all.into_iter().map(|p| ([p.iter().map(|&i| es[i].3).sum(), p.iter().map(|&i| es[i].4).sum()], p.len())).collect();
        let (k, none, ps) = v.next().unwrap();
        let fail = |m: &str| Err(format!("{:?}: {}; told is {:?}, all paths are {:?}: {}", x, m, (k, none, ps), all, text()));
        if none.is_some() != all.is_empty() || none.as_ref().map_or(false, |i| i[..] != [x.0, x.1]) {
            return fail("whether there is a path");
        }
        if ps.len() != *k {
            return fail("the number of paths");
        }
        for (i, p) in ps.iter().enumerate() {
            if p.0[..] != [x.0, x.1] || !all.iter().any(|q| q.1 == p.2 && p.1.len() == 2 && close(q.0[0], p.1[0]) && close(q.0[1], p.1[1])) {
                return fail("no such path");
            }
            if ps[..i].iter().any(|q| q.1 == p.1) {
                return fail("told twice");
            }
        }
        for m in (0..2).filter(|&m| a[m] > 0.0 && !all.is_empty()) {
            let best = all.iter().map(|q| q.0[m]).fold(f64::INFINITY, f64::min);
            if !ps.iter().any(|p| close(p.1[m], best)) {
                return fail("a best path is missing");
            }
        }
    }
    cli::same(&files, &cli::tree(&dir)).map_err(|m| format!("{}: {}", m, text()))?;
    l.outcome(&told.iter().map(|t| t.0).collect::<Vec<_>>());
    Ok(())
}

//------------------------------------------------------------------------------------------------//
// evaluating

pub const EVAL_FILES: [&str; 3] = ["edges-info.csv", "abs_workloads.csv", "smarts.xml"];

pub fn evaluating(dir: &str, threads: usize, smarts: Option<bool>) -> String {
    let smarts = smarts.map(|b| format!("    export_vehicles_for_SMARTS: {}\n", b)).unwrap_or_default();
    format!(
        "evaluating_balance:
  seed: 5
  number_of_threads: {}
  results-dir: '{}'
  monitoring:
    edges-info: {{ file: edges-info.csv, ids: [ {{ id: edge-id }}, {{ id: toll }} ] }}
{}",
        threads, dir, smarts
    )
}

/// the vehicles of a file for SMARTS, sorted
pub fn vehicles(bytes: &[u8]) -> Result<Vec<(String, Vec<i64>)>, String> {
    let text = String::from_utf8_lossy(bytes);
    let mut v: Vec<(String, Vec<i64>)> = vec![];
    let attr = |s: &str, name: &str| -> Option<String> {
        let a = s.find(&format!(" {}=\"", name))? + name.len() + 3;
        Some(s[a..a + s[a..].find('"')?].to_string())
    };
    let mut open = vec![];
    for tag in text.split('<').skip(1) {
        let (inner, rest) = tag.split_at(tag.rfind('"').map_or(0, |q| q + 1) + tag[tag.rfind('"').map_or(0, |q| q + 1)..].find('>').ok_or("a tag is not closed")?);
        if rest.len() > 1 && !rest[1..].trim().is_empty() {
            return Err(format!("text between tags: {}", rest));
        }
        if inner.starts_with('?') {
            continue;
        }
        if let Some(name) = inner.strip_prefix('/') {
            if open.pop() != Some(name.to_string()) {
                return Err(format!("</{}> closes nothing", name));
            }
            continue;
        }
        let name = inner.split_whitespace().next().unwrap_or("").trim_end_matches('/').to_string();
        match (name.as_str(), open.last().map(|s: &String| s.as_str())) {
            ("data", None) => (),
            ("vehicle", Some("data")) => v.push((attr(inner, "id").ok_or("vehicle without id")?, vec![])),
            ("node", Some("vehicle")) => v.last_mut().unwrap().1.push(attr(inner, "id").and_then(|s| s.parse().ok()).ok_or("node without id")?),
            _ => return Err(format!("<{}> in {:?}", name, open)),
        }
        if !inner.ends_with('/') {
            open.push(name);
        }
    }
    if !open.is_empty() {
        return Err(format!("{:?} is not closed", open));
    }
    v.sort();
    Ok(v)
}

/// edge-id -> value of the last column
pub fn csv(bytes: &[u8], header: &str) -> Result<BTreeMap<i64, f64>, String> {
    let text = String::from_utf8_lossy(bytes).into_owned();
    let mut lines = text.lines();
    if lines.next() != Some(header) {
        return Err(format!("header {} is missing:\n{}", header, text));
    }
    let mut m = BTreeMap::new();
    for x in lines {
        let w: Vec<&str> = x.split_whitespace().collect();
        match (w.len(), w.get(0).and_then(|s| s.parse().ok()), w.get(1).and_then(|s| s.parse().ok())) {
            (2, Some(i), Some(v)) => {
                if m.insert(i, v).is_some() {
                    return Err(format!("edge {} is given twice:\n{}", i, text));
                }
            }
            _ => return Err(format!("no line of two numbers: {}", x)),
        }
    }
    Ok(m)
}

/// Does `got` hold what the routes make of the map? (all best paths are unique)
fn judge_eval(got: &Files, dir: &str, map: &str, a: [f64; 2], pairs: &[(i64, i64, usize)], smarts: bool) -> Result<Vec<u64>, String> {
    let (_, es) = arcs(map);
    let mut loads: BTreeMap<i64, f64> = es.iter().map(|x| (x.0, 0.0)).collect();
    let mut cars = vec![];
    for x in pairs.iter().filter(|x| x.0 != x.1) {
        let b = best(&es, a, x.0, x.1);
        if b.len() > 1 {
            panic!("harness: ambiguous route {:?} in\n{}", x, map);
        }
        if let Some((_, p)) = b.first() {
            for &i in p {
                *loads.get_mut(&es[i].0).unwrap() += x.2 as f64;
            }
            for _ in 0..x.2 {
                let mut nodes = vec![x.0];
                nodes.extend(p.iter().map(|&i| es[i].2));
                cars.push((format!("{}->{}", x.0, x.1), nodes));
            }
        }
    }
    cars.sort();
    let file = |i: usize| got.get(&format!("{}{}", dir, EVAL_FILES[i]));
    let info = csv(file(0).ok_or("edges-info is missing")?, "edge-id toll")?;
    let want: BTreeMap<i64, f64> = es.iter().map(|x| (x.0, x.4)).collect();
    if info.len() != want.len() || !info.iter().all(|(k, v)| want.get(k).map_or(false, |w| close(*v, *w))) {
        return Err(format!("edges-info {:?} instead of {:?}", info, want));
    }
    let work = csv(file(1).ok_or("workloads are missing")?, "edge-id num_routes")?;
    if work != loads {
        return Err(format!("workloads {:?} instead of {:?}", work, loads));
    }
    match (smarts, file(2)) {
        (false, None) => (),
        (true, Some(b)) => {
            let v = vehicles(b)?;
            if v != cars {
                return Err(format!("vehicles {:?} instead of {:?}", v, cars));
            }
        }
        (_, f) => return Err(format!("vehicles are {}written", if f.is_some() { "" } else { "not " })),
    }
    Ok(loads.values().map(|x| *x as u64).collect())
}

const ALGOS: [&str; 4] = ["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }", "{ Explorator: { algo: CHDijkstra } }"];

fn evaluation(w: &World, map: &str, a: [f64; 2], algo: &str, threads: usize, smarts: Option<bool>, deep: bool, old: u64, flags: u64, l: &mut Local) -> Verdict {
    let dir_name = if deep { "some/results/" } else { "results/" };
    let pairs = if map == MAP { ROUTES.to_vec() } else { all_pairs(map) };
    let mut files = Files::new();
    files.insert("in.fmi".into(), map.into());
    files.insert("in.route-pairs".into(), routes_text(&pairs).into());
    files.insert("cfg.yaml".into(), (parsing("in.fmi") + &routing("in.route-pairs", algo, a) + &writing("", true, true, true) + &evaluating(dir_name.trim_end_matches('/'), threads, smarts)).into());
    for i in 0..3 {
        if old >> i & 1 == 1 {
            files.insert(format!("{}{}", dir_name, EVAL_FILES[i]), format!("old {}\n", i).into());
        }
    }
    let dir = cli::fresh(&w.scratch, l.worker);
    cli::put(&dir, &files);
    let mut args = vec!["--config", "cfg.yaml", "--evaluating_balance"];
    for (i, f) in FLAGS.iter().enumerate() {
        if flags >> i & 1 == 1 {
            args.push(f);
        }
    }
    let ran = execute(Bin::Gpl, &dir, &args, &[], l)?;
    let text = || format!("{:?}, {}, alphas {:?}, {} threads, smarts {:?}, existing {:03b}, map\n{}\n{}", args, algo, a, threads, smarts, old, map, ran.log);
    let ok = old == 0 && threads > 0;
    if ran.ok != ok {
        return Err(format!("success is {}: {}", ran.ok, text()));
    }
    let mut got = cli::tree(&dir);
    for i in 0..3 {
        if flags >> i & 1 == 1 {
            files.insert(TARGETS[i].into(), w.refs[i].clone());
        }
    }
    if ok {
        let loads = judge_eval(&got, dir_name, map, a, &pairs, smarts == Some(true)).map_err(|m| format!("{}: {}", m, text()))?;
        l.outcome(&loads);
        for f in &EVAL_FILES {
            got.remove(&format!("{}{}", dir_name, f));
        }
    }
    cli::same(&files, &got).map_err(|m| format!("{}: {}", m, text()))
}

pub fn run(c: &mut Ctx) {
    let w = World {
        refs: guard(|| reference(c.scratch())).expect("the reference"),
        scratch: c.scratch().to_path_buf(),
    };
    let w = &w;
    let on = |i: u64, l: &mut Local, per: u64, f: &dyn Fn(Bin, u64, &mut Local) -> Verdict| f(if i / per == 0 { Bin::Plain } else { Bin::Gpl }, i % per, l);

    c.family("steps", "all 16 sets of requested steps x all 8 sets of already existing targets x all 16 sets of given sections x routes from a file of their own or the one just written (the program built with gpl: 3 sections or all)", 4096 + 2048, |i, l| -> Verdict {
        let (bin, mut d) = if i < 4096 { (Bin::Plain, Dig(i)) } else { (Bin::Gpl, Dig(i - 4096)) };
        let (flags, old, own) = (d.take(16), d.take(8), d.take(2) == 1);
        let have = if bin == Bin::Plain { d.take(16) } else { [15, 7, 11, 13, 14, 15, 15, 15][d.take(8) as usize] };
        steps(w, bin, flags, old, have, own, l)
    });
    c.family("broken-inputs", "12 ways of broken or missing maps and configs x all 16 sets of requested steps x both programs: refused, nothing is written", 2 * 12 * 16, |i, l| -> Verdict {
        on(i, l, 192, &|b, k, l| broken(w, b, k % 12, k / 12, l))
    });
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=c.pick(3, 4) {
        // all sets of n words in all orders
        for mask in 0u32..1 << WORDS.len() {
            if mask.count_ones() as usize == n {
                let set: Vec<usize> = (0..WORDS.len()).filter(|i| mask >> i & 1 == 1).collect();
                for p in perms(n) {
                    lists.push(p.iter().map(|&k| set[k]).collect());
                }
            }
        }
    }
    let n = lists.len() as u64;
    c.family("arguments", "all lists of up to 3 (thorough: 4) different arguments out of 14, in all orders, both programs", 2 * n, |i, l| -> Verdict { on(i, l, n, &|b, k, l| arguments(w, b, &lists[k as usize], l)) });
    c.family("log-levels", "all levels in 3 spellings or none x all levels by the environment or none x success or failure, both programs", 2 * 216, |i, l| -> Verdict { on(i, l, 216, &|b, k, l| levels(w, b, k, l)) });
    for n in [3, 4] {
        // maps x orders x weightings x algorithms x strange ones
        let maps = 1u64 << (n * (n - 1));
        let per = if n == 3 { maps * 72 } else { maps * c.pick(3, 72) };
        let rule = "all maps of 3 nodes (then of 4) x 3 cost-orders x 4 weightings x Dijkstra, CH-Dijkstra x no route of unknown nodes, one in the middle, one at the end: all routes are told as they are, unknown nodes are refused; both programs (4 nodes, quick: one weighting)";
        c.family(&format!("routes-{}", n), rule, 2 * per, |i, l| -> Verdict { on(i, l, per, &|b, k, l| routes(w, b, n, k, l)) });
    }
    c.family("explored", "all maps of 3 nodes (thorough: then of 4) x 3 cost-orders x 4 weightings x explorators with Dijkstra, CH-Dijkstra: the paths told are paths, different ones, best ones for each single metric among them", 63 * 24 + c.pick(0, 4095 * 24), |i, l| -> Verdict {
        if i < 63 * 24 { explored(w, 3, i, l) } else { explored(w, 4, i - 63 * 24, l) }
    });
    c.family("evaluating-files", "all 8 sets of existing results x results-directory of one or two levels x vehicles asked for, not asked for, default x 0 to 3 threads x with and without other steps", 8 * 2 * 3 * 4 * 3, |i, l| -> Verdict {
        let mut d = Dig(i);
        let (old, deep, s, t, f) = (d.take(8), d.take(2) == 1, d.take(3), d.take(4), d.take(3));
        evaluation(w, MAP, [1.0, 0.5], "Dijkstra", t as usize, [None, Some(false), Some(true)][s as usize], deep, old, [0, 5, 15][f as usize], l)
    });
    for n in [3, 4] {
        let maps = 1u64 << (n * (n - 1));
        let per = if n == 3 { 48 } else { c.pick(4, 48) };
        let rule = "all maps of 3 nodes (then of 4) x 4 algorithms x 4 weightings x 3 cost-orders (4 nodes, quick: one weighting and order), 1 to 3 threads: workloads and vehicles are those of the best paths";
        c.family(&format!("evaluating-maps-{}", n), rule, maps * per, |i, l| -> Verdict {
            let mut d = Dig(i);
            let (mask, al, a, order) = (d.take(maps), d.take(4) as usize, ALPHAS[(d.take(4) as usize + 2) % 4], d.take(3));
            let map = small_map(n, mask, order as usize * 2);
            // explorators may choose between several
            if mask == 0 || (al >= 2 && a[0] * a[1] != 0.0) {
                return Ok(());
            }
            evaluation(w, &map, a, ALGOS[al], 1 + (i / 7 % 3) as usize, Some(true), false, 0, 0, l)
        });
    }
}
