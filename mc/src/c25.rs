//! C25: whichever call to the file system fails, is cut short or interrupted, or is the last one: success means that
//! all is done, and nothing which was there before is harmed.
use crate::{
    c10, c20, c21,
    cli::{self, Bin, Files},
    engine::{Ctx, Local, Verdict},
};
use std::{collections::BTreeMap, fs, path::Path};

struct Job {
    name: &'static str,
    bin: Bin,
    args: Vec<&'static str>,
    files: Files,
    /// it calls the external tool
    tool: bool,
    /// refused, because a file is there which this other job writes
    blocked: Option<usize>,
}

/// what a run leaves
struct Left {
    ok: bool,
    log: String,
    files: Files,
    calls: Vec<Vec<String>>,
}

const KINDS: [(&str, &str); 5] = [
    ("fail", "fails (no space left when writing, i/o-error otherwise)"),
    ("full", "is the first to find the disk full, which it remains"),
    ("short", "transfers half of what is asked for"),
    ("intr", "is interrupted by a signal"),
    ("kill", "does not return, the program is killed"),
];

/// a ring with chords, both metrics make all routes unique
fn ring(n: usize) -> String {
    let mut es = vec![];
    for i in 0..n {
        es.push((i, (i + 1) % n, 1.0 + i as f64 / 64.0));
        if i % 3 == 0 {
            es.push(((i + 5) % n, i, 2.0 + i as f64 / 128.0));
        }
    }
    let nodes: String = (0..n).map(|i| format!("{} {:?} {:?}\n", 1000 + 7 * i, 48.0 + (i % 17) as f64 / 64.0, 9.0 + (i % 23) as f64 / 64.0)).collect();
    let edges: String = es.iter().enumerate().map(|(k, x)| format!("{} {} {} {:?} {:?}\n", 50_000 + k, 1000 + 7 * x.0, 1000 + 7 * x.1, x.2, 1.0 + (k % 5) as f64)).collect();
    format!("# made\n{}\n{}\n{}{}", n, es.len(), nodes, edges)
}

fn jobs() -> Vec<Job> {
    let n = 170;
    let map = ring(n);
    let routes: String = (0..400).map(|i| format!("{} {} {}\n", 1000 + 7 * (i * 11 % n), 1000 + 7 * (i * 5 % n + 1) % (7 * n), 1 + i % 3)).collect::<String>();
    let known = |id: usize| id >= 1000 && (id - 1000) % 7 == 0 && (id - 1000) / 7 < n;
    let routes: Vec<&str> = routes.lines().filter(|x| x.split(' ').take(2).all(|s| known(s.parse().unwrap()))).collect();
    let pairs: Vec<String> = (0..400).map(|i| (i * 11 % n, (i * 7 + 1) % n)).filter(|x| x.0 != x.1).map(|x| format!("{} {} 1", 1000 + 7 * x.0, 1000 + 7 * x.1)).collect();
    let all: Vec<&str> = routes.into_iter().chain(pairs.iter().map(|s| s.as_str())).collect();
    let routes = format!("{}\n{}\n", all.len(), all.join("\n"));
    let lines = |k: usize| routes.lines().skip(1).take(k).fold(format!("{}\n", k), |s, x| s + x + "\n");
    let files = |v: &[(&str, String)]| -> Files { v.iter().map(|(k, v)| (k.to_string(), v.clone().into_bytes())).collect() };
    let base = |k: usize| vec![("in.fmi", map.clone()), ("in.route-pairs", lines(k))];
    let mut v = vec![];

    let with = |cfg: String, k: usize| {
        let mut b = base(k);
        b.push(("cfg.yaml", cfg));
        files(&b)
    };
    let route = c20::routing("in.route-pairs", "Dijkstra", [1.0, 0.5]);
    v.push(Job {
        name: "writing",
        bin: Bin::Plain,
        args: vec!["--config", "cfg.yaml", "--writing_graph", "--writing_edges", "--writing_route-pairs"],
        files: with(c20::parsing("in.fmi") + &route + &c20::writing("", true, true, true).replace("max_count: 5", "max_count: 900"), 3),
        tool: false,
        blocked: None,
    });
    v.push(Job {
        name: "routing",
        bin: Bin::Plain,
        args: vec!["--config", "cfg.yaml", "--routing"],
        // more than one buffer
        files: with(c20::parsing("in.fmi") + &route, all.len()),
        tool: false,
        blocked: None,
    });
    v.push(Job {
        name: "evaluating",
        bin: Bin::Gpl,
        args: vec!["--config", "cfg.yaml", "--evaluating_balance"],
        files: with(c20::parsing("in.fmi") + &route + &c20::evaluating("some/results", 1, Some(true)), 40),
        tool: false,
        blocked: None,
    });
    // a map of OpenStreetMap, merged with a file of values
    let mut o = c10::Osm::default();
    for id in 1..=400i64 {
        o.nodes.push((id, 480_000_000 + (id % 37) as i32 * 12_345, 90_000_000 + (id % 41) as i32 * 54_321));
    }
    let kinds = ["residential", "motorway", "footway", "secondary", "tertiary"];
    for k in 0..130i64 {
        o.ways.push(c10::way(&[1 + k * 3, 2 + k * 3, 3 + k * 3, 1 + 1 + (k * 7 + 5) % 390], &[("highway", kinds[k as usize % 5]), ("name", "some street")]));
    }
    let mut s = String::from("parsing:\n  map-file: in.osm.pbf\n  vehicles: { category: Car, are_drivers_picky: false }\n  nodes:\n  - meta: { info: NodeId, id: node-id }\n  - metric: { unit: Latitude, id: lat }\n  - metric: { unit: Longitude, id: lon }\n");
    s += "  edges:\n    data:\n    - meta: { info: SrcId, id: src-id }\n    - meta: { info: DstId, id: dst-id }\n    - metric: { unit: KilometersPerHour, id: kmph }\n    - metric: { unit: LaneCount, id: lanes }\n";
    s += "  generating:\n    nodes: []\n    edges:\n    - meta: { info: EdgeId, id: edge-id }\n    - haversine: { unit: Kilometers, id: km }\n    - merge: { from: side.csv, edge-id: edge-id, edges-info: [ { id: edge-id }, { id: lanes } ] }\n";
    s += "writing:\n  graph:\n    map-file: deep/new.fmi\n    nodes: [ { id: node-id }, { id: lat }, { id: lon } ]\n    edges: { ids: [ { id: edge-id }, { id: src-id }, { id: dst-id }, { id: km }, { id: kmph }, { id: lanes } ] }\n";
    let side: String = std::iter::once("edge-id lanes\n".to_string()).chain((0..c10::meaning(&o, &c10::Who::driver()).0.len()).map(|i| format!("{} {}\n", i, 2 + i % 4))).collect();
    let mut f = files(&[("cfg.yaml", s), ("side.csv", side), ("deep/there", "yes".into())]);
    f.insert("in.osm.pbf".into(), c10::blobs(&o, &c10::MANY).concat());
    v.push(Job {
        name: "importing",
        bin: Bin::Plain,
        args: vec!["--config", "cfg.yaml", "--writing_graph"],
        files: f,
        tool: false,
        blocked: None,
    });
    v.push(Job {
        name: "balancing",
        bin: Bin::Gpl,
        args: vec!["--config", "cfg.yaml", "--balancing"],
        files: c21::Job::some().inputs(),
        tool: true,
        blocked: None,
    });
    let mut f = files(&[
        ("cfg.yaml", "multi-ch-constructor:\n  fmi-graph: some/a.fmi\n  contracted-graph: some/b.ch.fmi\n  dimension: 1\n  is_printing_osm-ids: true\n  is_using_external_edge-ids: true\n".into()),
        ("some/a.fmi", "2\n1\n0 10 1 1 _ _\n1 11 1 2 _ _\n5 0 1 1 _ _\n".into()),
    ]);
    f.insert(format!("{}/plan", c21::TOOL), "plain".into());
    v.push(Job {
        name: "constructing",
        bin: Bin::Mchc,
        args: vec!["--config", "cfg.yaml"],
        files: f,
        tool: true,
        blocked: None,
    });
    let there = [
        ("blocked-graph", 0, c20::TARGETS[0]),
        ("blocked-edges", 0, c20::TARGETS[1]),
        ("blocked-routes", 0, c20::TARGETS[2]),
        ("blocked-info", 2, "some/results/edges-info.csv"),
        ("blocked-workloads", 2, "some/results/abs_workloads.csv"),
        ("blocked-vehicles", 2, "some/results/smarts.xml"),
        ("blocked-import", 3, "deep/new.fmi"),
    ];
    for (name, base, file) in there {
        let mut f = v[base].files.clone();
        f.insert(file.into(), b"precious\n".to_vec());
        v.push(Job {
            name,
            bin: v[base].bin,
            args: v[base].args.clone(),
            files: f,
            tool: false,
            blocked: Some(base),
        });
    }
    v
}

fn dateless(path: &str) -> String {
    path.split('/').map(|s| if s.starts_with("utc_") { "DATE" } else { s }).collect::<Vec<_>>().join("/")
}

/// the date of results and the order of lines are no matter of this property
fn plain(f: Files) -> Files {
    f.into_iter()
        .map(|(k, v)| {
            let mut lines: Vec<&[u8]> = v.split(|b| *b == b'\n').collect();
            lines.sort();
            (dateless(&k), lines.join(&b'\n'))
        })
        .collect()
}

/// all that is said about routes
fn told(log: &str) -> BTreeMap<(Vec<i64>, String), usize> {
    let mut m = BTreeMap::new();
    for x in log.lines().filter(|x| x.contains("Path costs") || x.contains("No path")) {
        let costs = cli::list_after(x, "Path costs").map(|c| format!("{:?}", c)).unwrap_or_default();
        *m.entry((cli::numbers_after(x, "id: "), costs)).or_insert(0) += 1;
    }
    m
}

/// where the program's calls are listed: not among its files
fn log_of(dir: &Path) -> String {
    format!("{}.calls", dir.display())
}

fn shim() -> String {
    let dir = std::env::var("MC_CLI").unwrap_or_else(|_| "/verif/target/cli".into());
    format!("{}/shim.so", dir)
}

/// in `dir`, with a fault
fn run_in(j: &Job, dir: &Path, path: &str, kind: &str, at: i64, fail: Option<i64>) -> Result<cli::Ran, String> {
    let root = format!("{}/", fs::canonicalize(dir).expect("scratch").display());
    let so = shim();
    let (log, at, too) = (log_of(dir), at.to_string(), fail.unwrap_or(-1).to_string());
    let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &so), ("FAULT_ROOT", &root), ("FAULT_AT", &at), ("FAULT_KIND", kind), ("FAULT_TOO", &too)];
    if kind == "none" {
        env.push(("FAULT_LOG", &log));
    }
    if j.tool {
        env.push(("PATH", path));
    }
    cli::run(j.bin, dir, &j.args, &env)
}

fn start(j: &Job, scratch: &Path, worker: usize) -> (std::path::PathBuf, String) {
    let dir = cli::fresh(scratch, worker);
    if j.tool {
        let p = c21::prepare(&dir, &j.files);
        (dir, p)
    } else {
        cli::put(&dir, &j.files);
        (dir, String::new())
    }
}

fn leave(j: &Job, dir: &Path, ran: cli::Ran) -> Left {
    let (files, calls) = if j.tool { c21::collect(dir) } else { (cli::tree(dir), vec![]) };
    let calls = calls.into_iter().map(|c| c.iter().map(|a| dateless(a)).collect()).collect();
    Left {
        ok: ran.ok,
        log: ran.log + &ran.out,
        files,
        calls,
    }
}

/// an undisturbed run and its calls to the file system
fn reference(j: &Job, scratch: &Path) -> Result<(Left, Vec<String>), String> {
    let (dir, path) = start(j, scratch, 0);
    let _ = fs::remove_file(log_of(&dir));
    let ran = run_in(j, &dir, &path, "none", -1, None)?;
    let calls = fs::read_to_string(log_of(&dir)).map_err(|e| format!("no call is seen: {}", e))?;
    let _ = fs::remove_file(log_of(&dir));
    let left = leave(j, &dir, ran);
    if left.ok != j.blocked.is_none() {
        return Err(format!("{}: undisturbed, success is {}:\n{}", j.name, left.ok, left.log));
    }
    Ok((left, calls.lines().map(|s| s.to_string()).collect()))
}

fn disturbed(j: &Job, want: &Left, allowed: &Files, calls: &[String], scratch: &Path, kind: &str, at: i64, fail: Option<i64>, l: &mut Local) -> Verdict {
    let (dir, path) = start(j, scratch, l.worker);
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let call = if at < 0 { "every call to read or write transfers one byte".to_string() } else { calls[at as usize].clone() };
    let ended = run_in(j, &dir, &path, kind, at, fail);
    let killed = kind == "kill" && ended.is_err();
    let what = format!("{}: {} ({})", j.name, call, if at < 0 { "slow" } else { KINDS.iter().find(|k| k.0 == kind).unwrap().1 });
    let what = match fail {
        Some(k) => format!("{}, then call {} fails ({} if nothing had happened before)", what, k, calls[k as usize]),
        None => what,
    };
    let ran = match ended {
        Ok(r) => r,
        Err(log) if killed => cli::Ran { ok: false, out: String::new(), log },
        Err(m) => return Err(format!("{}: {}", what, m)),
    };
    // once more, undisturbed, on what a killed program left
    if killed && !j.tool {
        let before = cli::tree(&dir);
        let ran = run_in(j, &dir, &path, "none", -1, None)?;
        let _ = fs::remove_file(log_of(&dir));
        let got = cli::tree(&dir);
        l.step(1);
        for (k, v) in &before {
            if got.get(k) != Some(v) {
                return Err(format!("{}; the next run changes {}, which has been there:\n{}", what, k, ran.log));
            }
        }
        if ran.ok && !want.ok {
            return Err(format!("{}; the next run reports success, although a file stands against it:\n{}", what, ran.log));
        }
        if ran.ok {
            cli::same(&plain(want.files.clone()), &plain(got)).map_err(|m| format!("{}; the next run reports success, but {}", what, m))?;
        }
    }
    let got = leave(j, &dir, ran);
    for (k, v) in &j.files {
        if got.files.get(k) != Some(v) {
            return Err(format!("{}: {} has been harmed:\n{}", what, k, got.log));
        }
    }
    let (all, mine) = (plain(want.files.clone()), plain(got.files.clone()));
    if let Some(k) = mine.keys().find(|k| !allowed.contains_key(*k)) {
        return Err(format!("{}: {} should not have been written:\n{}", what, k, got.log));
    }
    // these are no failures
    let harmless = fail.is_none() && ["short", "intr", "slow"].contains(&kind);
    if got.ok && !want.ok {
        return Err(format!("{}: reports success, although a file stands against it:\n{}", what, got.log));
    }
    if harmless && want.ok && !got.ok {
        return Err(format!("{}: reports failure, though nothing has failed:\n{}", what, got.log));
    }
    if got.ok {
        cli::same(&all, &mine).map_err(|m| format!("{}: reports success, but {}\n{}", what, m, got.log))?;
        if told(&got.log) != told(&want.log) {
            return Err(format!("{}: reports success, but tells other routes:\n{}", what, got.log));
        }
        if got.calls != want.calls {
            return Err(format!("{}: reports success, but the tool has been called by {:?} instead of {:?}:\n{}", what, got.calls, want.calls, got.log));
        }
    } else if !killed && got.log.trim().is_empty() {
        return Err(format!("{}: says nothing", what));
    }
    l.outcome(&(got.ok, mine.iter().map(|x| x.1.len()).collect::<Vec<_>>()));
    l.sample(|| format!("{}: {}", what, if got.ok { "all is done" } else { "failure is reported" }));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    let scratch = c.scratch().to_path_buf();
    let all = jobs();
    let mut refs = vec![];
    let mut allowed = vec![];
    for j in &all {
        match reference(j, &scratch) {
            Ok(r) => refs.push(r),
            Err(m) => {
                c.family_with("undisturbed", "every job, nothing fails", 1, 1, |_, _| Err(m.clone()));
                return;
            }
        }
    }
    for (i, j) in all.iter().enumerate() {
        let may = j.blocked.unwrap_or(i);
        if let Some(k) = all[i].files.keys().find(|k| !all[may].files.contains_key(*k) && !refs[may].0.files.contains_key(*k)) {
            c.family_with("undisturbed", "every job, nothing fails", 1, 1, |_, _| Err(format!("{} does not write {}", all[may].name, k)));
            return;
        }
        allowed.push(plain(refs[may].0.files.clone()));
    }
    for ((j, (left, calls)), allowed) in all.iter().zip(&refs).zip(&allowed) {
        if calls.len() < 5 {
            c.family_with("undisturbed", "every job, nothing fails", 1, 1, |_, _| Err(format!("{}: only {} calls are seen", j.name, calls.len())));
            return;
        }
        let n = calls.len() as u64;
        let rule = format!(
            "the job {} (program {:?}, {} files at the end): each of its {} calls to the file system x fails, finds the disk full from there on, transfers half, is interrupted, is the last one before the program is killed; and all transfers byte by byte",
            j.name,
            j.bin,
            left.files.len(),
            n
        );
        c.family(j.name, &rule, n * KINDS.len() as u64 + 1, |i, l| -> Verdict {
            let k = i as usize / n as usize;
            if k == KINDS.len() {
                disturbed(j, left, allowed, calls, &scratch, "slow", -1, None, l)
            } else {
                disturbed(j, left, allowed, calls, &scratch, KINDS[k].0, (i % n) as i64, None, l)
            }
        });
    }
    // an earlier disturbance may hide a later one
    for ((j, (left, calls)), allowed) in all.iter().zip(&refs).zip(&allowed) {
        let n = calls.len() as u64;
        if n > 150 && c.quick() {
            continue;
        }
        let rule = format!("the job {}: each pair of calls, the first fails, transfers half or is interrupted (and the program may go on), the second fails", j.name);
        c.family(&format!("{}-twice", j.name), &rule, n * n * 3, |i, l| -> Verdict {
            let (k, a, b) = (i / (n * n), (i % n) as i64, (i / n % n) as i64);
            if a >= b {
                return Ok(());
            }
            disturbed(j, left, allowed, calls, &scratch, ["fail", "short", "intr"][k as usize], a, Some(b), l)
        });
    }
}
