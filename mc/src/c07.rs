//! C07: a writer which reports success has written everything, whatever byte the disk fails at;
//! and no writer touches what already exists.
use crate::{
    c01::{show, structured},
    engine::{guard, Ctx, Local, Verdict},
    fmi::*,
    model::*,
};
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::Graph,
    routing::{dijkstra::Dijkstra, paths},
};
use std::{
    fs,
    path::{Path, PathBuf},
};

const WRITERS: [&str; 6] = ["graph", "edges-info", "external-values", "route-pairs", "smarts", "evaluating-balance"];

struct World {
    g: Graph,
    r: RCfg,
    paths: Vec<paths::Path>,
    values: Vec<usize>,
}

fn world(shape: u64, n: usize) -> World {
    let mut es = if n == 2 {
        vec![e(-7, 3, &[1.5]), e(3, -7, &[0.25])]
    } else {
        structured(shape, n, 2)
    };
    for (j, x) in es.iter_mut().enumerate() {
        x.id = Some(1000 + 3 * j);
    }
    let ns = nodes_of(&es);
    let k = cfg_yaml(&parse_text("some.fmi", &[NC::Id, NC::Lat, NC::Lon], &[EC::Id, EC::Src, EC::Dst, EC::M(0)], false, ""));
    let g = build(&k, &es, &ns).unwrap_or_else(|m| panic!("{}: {}", m, show(&es)));
    let r = rcfg(RoutingAlgo::Dijkstra, &[1.0]);
    let mut d = Dijkstra::new();
    let cnt = g.nodes().count();
    let mut ps = vec![];
    for s in 0..cnt.min(6) {
        for t in 0..cnt {
            if let Some(p) = query(&mut d, &g, &r, s, t) {
                ps.push(p);
            }
        }
    }
    let values = (0..g.fwd_edges().count()).map(|i| i * 7).collect();
    World { g, r, paths: ps, values }
}

/// Names of the files a writer creates, relative to the directory.
fn targets(w: usize) -> Vec<&'static str> {
    match w {
        0 => vec!["out.fmi"],
        1 | 2 => vec!["out.csv"],
        3 => vec!["out.route-pairs"],
        4 => vec!["out.xml"],
        _ => vec!["info.csv", "abs_workloads.csv"],
    }
}

fn eb_cfg(dir: &Path) -> configs::evaluating_balance::Config {
    configs::evaluating_balance::Config::from_str(&format!(
        "evaluating_balance:\n  results-dir: '{}'\n  monitoring:\n    edges-info:\n      file: info.csv\n      ids:\n      - id: edge-id\n      - id: m0\n      - id: dst-id\n",
        dir.display()
    ))
}

fn write(w: usize, world: &World, dir: &Path) -> Result<(), String> {
    let f = dir.join(targets(w)[0]);
    let fs_ = f.to_str().unwrap();
    match w {
        0 => write_graph(&world.g, &wcfg(&write_text(fs_, &[NC::Id, NC::Lat, NC::Lon], &[EC::Id, EC::Src, EC::Dst, EC::M(0)], None, None))),
        1 => write_edges(&world.g, &ecfg(&edges_text(fs_, &[Some("edge-id"), Some("src-id"), Some("m0")], None, None))),
        2 => {
            let c = ecfg(&edges_text(fs_, &[Some("edge-id"), Some("num_routes")], None, None));
            guard(|| io::network::edges::Writer::write_external_values(&world.values, &world.g, &c)).and_then(|r| r.map_err(|e| e.to_string()))
        }
        3 => {
            let c: configs::writing::routing::Config =
                serde_yaml::from_str(&format!("writing:\n  route-pairs:\n    file: '{}'\n    random_or_all: {{ seed: 7, max_count: 2000 }}\n", fs_)).unwrap();
            guard(|| io::routing::Writer::write(&world.g, &world.r, &c)).and_then(|r| r.map_err(|e| e.to_string()))
        }
        4 => {
            let c = configs::writing::smarts::Config { file: f.clone() };
            guard(|| io::smarts::Writer::write(&world.paths, &world.g, &c)).and_then(|r| r.map_err(|e| e.to_string()))
        }
        _ => guard(|| io::evaluating_balance::Writer::write(&world.values, &world.g, &eb_cfg(dir))).and_then(|r| r.map_err(|e| e.to_string())),
    }
}

/// From here on, files of this process end at `bytes`; further writes fail.
struct Disk;
impl Disk {
    fn of(bytes: u64) -> Disk {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: bytes, rlim_max: libc::RLIM_INFINITY };
            assert!(libc::setrlimit(libc::RLIMIT_FSIZE, &l) == 0);
        }
        Disk
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        unsafe {
            let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
}

fn fresh(dir: &Path) -> PathBuf {
    let d = dir.join("c07");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

/// everything in the directory: name, kind, content
fn listing(d: &Path) -> Vec<(String, String, Vec<u8>)> {
    let mut v: Vec<_> = fs::read_dir(d)
        .unwrap()
        .map(|x| {
            let p = x.unwrap().path();
            let m = fs::symlink_metadata(&p).unwrap();
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            if m.file_type().is_symlink() {
                (name, format!("link to {}", fs::read_link(&p).unwrap().display()), vec![])
            } else if m.is_dir() {
                (name, format!("directory of {}", fs::read_dir(&p).unwrap().count()), vec![])
            } else {
                (name, "file".into(), fs::read(&p).unwrap())
            }
        })
        .collect();
    v.sort();
    v
}

fn failing_disk(w: usize, world: &World, whole: &[Vec<u8>], limit: u64, dir: &Path, l: &mut Local) -> Verdict {
    let d = fresh(dir);
    let r = {
        let _disk = Disk::of(limit);
        write(w, world, &d)
    };
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let got: Vec<Vec<u8>> = targets(w).iter().map(|t| fs::read(d.join(t)).unwrap_or_default()).collect();
    l.outcome(&(w, r.is_ok(), got.iter().map(|g| g.len()).collect::<Vec<_>>()));
    let fits = whole.iter().all(|b| b.len() as u64 <= limit);
    let what = || format!("writer {}, files of {:?} bytes, disk fails behind byte {}", WRITERS[w], whole.iter().map(|b| b.len()).collect::<Vec<_>>(), limit);
    match (&r, fits) {
        (Ok(()), _) if got == whole => Ok(()),
        (Ok(()), _) => Err(format!("{}: success is reported, but {:?} bytes are there", what(), got.iter().map(|b| b.len()).collect::<Vec<_>>())),
        (Err(m), true) => Err(format!("{}: fails, although everything fits: {}", what(), m)),
        (Err(_), false) => Ok(()),
    }
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    let dir = c.scratch().to_path_buf();
    let mut plan: Vec<(usize, usize, u64)> = vec![]; // writer, world, limit
    let worlds = vec![world(0, 2), world(3, 12), world(5, 60)];
    let mut whole: Vec<Vec<Vec<Vec<u8>>>> = vec![];
    for (wi, world) in worlds.iter().enumerate() {
        let mut per = vec![];
        for w in 0..WRITERS.len() {
            let d = fresh(&dir);
            let r = write(w, world, &d);
            let files: Vec<Vec<u8>> = targets(w).iter().map(|t| fs::read(d.join(t)).unwrap_or_default()).collect();
            if r.is_err() || files.iter().any(|f| f.is_empty()) {
                c.family_with("undisturbed", "every writer, nothing fails", 1, 1, |_, _| {
                    Err(format!("writer {} fails without a reason: {:?}, files of {:?} bytes", WRITERS[w], r, files.iter().map(|f| f.len()).collect::<Vec<_>>()))
                });
                return;
            }
            let size = files.iter().map(|f| f.len() as u64).max().unwrap();
            // every byte of the small ones; large ones: every byte around the buffer-boundaries and the end
            let step = c.pick(if wi == 0 { 1 } else { 97 }, 1);
            for limit in 0..size + 2 {
                let near = limit % 8192 <= 2 || limit % 8192 >= 8190 || limit % 1024 == 0 || limit + 3 >= size || files.iter().any(|f| (f.len() as i64 - limit as i64).abs() <= 2);
                if limit % step == 0 || near {
                    plan.push((w, wi, limit));
                }
            }
            per.push(files);
        }
        whole.push(per);
    }
    let sizes: Vec<usize> = whole.iter().flat_map(|x| x.iter().flat_map(|y| y.iter().map(|z| z.len()))).collect();
    c.family_with(
        "failing-disk",
        &format!("6 writers, 3 networks (files of {:?} bytes), the disk fails behind byte 0, 1, 2, ... ({})", sizes, c.pick("every byte for the smallest network; boundaries of buffers, ends, and every 97th byte otherwise", "every byte")),
        plan.len() as u64,
        1,
        |i, l| {
            let (w, wi, limit) = plan[i as usize];
            l.sample(|| format!("writer {}, network {}, disk fails behind byte {}", WRITERS[w], wi, limit));
            failing_disk(w, &worlds[wi], &whole[wi][w], limit, &dir, l)
        },
    );
    // what is there stays
    let kinds = ["file", "empty file", "read-only file", "directory", "link to a file", "dangling link", "link to a directory", "complete earlier output"];
    c.family_with(
        "existing-target",
        &format!("6 writers x which of their files x what is already there, from {:?}", kinds),
        (WRITERS.len() * kinds.len() * 2) as u64,
        1,
        |i, l| {
            let i = i as usize;
            let (w, kind, which) = (i % WRITERS.len(), i / WRITERS.len() % kinds.len(), i / WRITERS.len() / kinds.len());
            let ts = targets(w);
            if which >= ts.len() {
                return Ok(());
            }
            let d = fresh(&dir);
            let t = d.join(ts[which]);
            fs::write(d.join("precious.txt"), b"precious").unwrap();
            fs::create_dir(d.join("precious.d")).unwrap();
            match kind {
                0 => fs::write(&t, b"old\ncontent\n").unwrap(),
                1 => fs::write(&t, b"").unwrap(),
                2 => {
                    fs::write(&t, b"old").unwrap();
                    let mut p = fs::metadata(&t).unwrap().permissions();
                    p.set_readonly(true);
                    fs::set_permissions(&t, p).unwrap();
                }
                3 => fs::create_dir(&t).unwrap(),
                4 => std::os::unix::fs::symlink("precious.txt", &t).unwrap(),
                5 => std::os::unix::fs::symlink("nowhere", &t).unwrap(),
                6 => std::os::unix::fs::symlink("precious.d", &t).unwrap(),
                _ => fs::write(&t, &whole[0][w][which]).unwrap(),
            }
            let before = listing(&d);
            let r = write(w, &worlds[0], &d);
            l.step(1);
            l.eval(1);
            l.validated += 1;
            let after = listing(&d);
            l.outcome(&(w, kind, which, r.is_ok()));
            let what = format!("writer {}, target {} is already there ({})", WRITERS[w], ts[which], kinds[kind]);
            if r.is_ok() {
                return Err(format!("{}: success is reported", what));
            }
            for x in &before {
                if !after.contains(x) {
                    return Err(format!("{}: {} has been changed to {:?}", what, x.0, after.iter().find(|y| y.0 == x.0)));
                }
            }
            // only the other file of a two-file-writer may have appeared
            for y in &after {
                if !before.contains(y) && !(ts.len() > 1 && ts.contains(&y.0.as_str())) {
                    return Err(format!("{}: {} has appeared", what, y.0));
                }
            }
            Ok(())
        },
    );
    // the advance checks agree
    c.family_with(
        "advance-check",
        "the advance checks of edges-info and evaluating-balance, for every subset of existing target files (edges-info, workloads, vehicles)",
        2 + 8,
        1,
        |i, l| {
            let d = fresh(&dir);
            l.step(1);
            l.eval(1);
            if i < 2 {
                let t = d.join("out.csv");
                if i == 1 {
                    fs::write(&t, b"x").unwrap();
                }
                let k = ecfg(&edges_text(t.to_str().unwrap(), &[Some("edge-id")], None, None));
                let r = guard(|| io::network::edges::Writer::check(&k).map_err(|e| e.to_string())).and_then(|x| x);
                if r.is_err() != (i == 1) {
                    return Err(format!("existing: {}, check says {:?}", i == 1, r));
                }
            } else {
                let s = i - 2;
                let names = ["info.csv", "abs_workloads.csv", osmgraphing::defaults::smarts::XML_FILE_NAME];
                for (b, n) in names.iter().enumerate() {
                    if s >> b & 1 == 1 {
                        fs::write(d.join(n), b"x").unwrap();
                    }
                }
                let r = guard(|| io::evaluating_balance::Writer::check(&eb_cfg(&d)).map_err(|e| e.to_string())).and_then(|x| x);
                if r.is_err() != (s != 0) {
                    return Err(format!("existing files {:?}: check says {:?}", listing(&d).iter().map(|x| x.0.clone()).collect::<Vec<_>>(), r));
                }
            }
            Ok(())
        },
    );
    let _ = fs::remove_dir_all(dir.join("c07"));
}
