//! Runs of the real binaries in scratch directories.
use std::{
    collections::BTreeMap,
    fs,
    io::Read,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    thread,
};

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Plain,
    Gpl,
    Mchc,
    /// with gpl, built for some metrics
    Dim(u8),
}

impl Bin {
    pub fn path(self) -> PathBuf {
        let dir = std::env::var("MC_CLI").unwrap_or_else(|_| "/verif/target/cli".into());
        Path::new(&dir).join(match self {
            Bin::Plain => "osmgraphing".to_string(),
            Bin::Gpl => "osmgraphing-gpl".to_string(),
            Bin::Mchc => "multi-ch-constructor".to_string(),
            Bin::Dim(k) => format!("osmgraphing-dim{}", k),
        })
    }
}

pub struct Ran {
    pub ok: bool,
    pub out: String,
    pub log: String,
}

/// Runs in `dir`. `path` replaces the PATH.
pub fn run(bin: Bin, dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Result<Ran, String> {
    let mut child = Command::new(bin.path())
        .current_dir(dir)
        .args(args)
        .env_remove("RUST_LOG")
        .env_remove("RUST_LOG_STYLE")
        .env("RUST_BACKTRACE", "0")
        .envs(env.iter().cloned())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: {:?}: {}", bin.path(), e));
    let mut err = child.stderr.take().unwrap();
    let reader = thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        s
    });
    let mut out = vec![];
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let status = child.wait().unwrap();
    let log = reader.join().unwrap();
    let ran = Ran {
        ok: status.success(),
        out: String::from_utf8_lossy(&out).into_owned(),
        log: String::from_utf8_lossy(&log).into_owned(),
    };
    match status.signal() {
        Some(s) => Err(format!("ended by signal {}: {}", s, ran.log)),
        None => Ok(ran),
    }
}

/// an empty directory of this worker
pub fn fresh(scratch: &Path, worker: usize) -> PathBuf {
    let d = scratch.join(format!("cwd{}", worker));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch");
    d
}

pub fn put(dir: &Path, files: &Files) {
    for (k, v) in files {
        let p = dir.join(k);
        fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        fs::write(p, v).expect("scratch");
    }
}

/// all files below
pub fn tree(dir: &Path) -> Files {
    fn go(root: &Path, dir: &Path, f: &mut Files) {
        for x in fs::read_dir(dir).expect("scratch") {
            let p = x.unwrap().path();
            let name = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            if let Ok(to) = fs::read_link(&p) {
                f.insert(name, format!("-> {}", to.display()).into());
            } else if p.is_dir() {
                go(root, &p, f);
            } else {
                f.insert(name, fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut f = Files::new();
    go(dir, dir, &mut f);
    f
}

pub fn same(want: &Files, got: &Files) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            Some(g) if g == v => (),
            Some(g) => return Err(format!("{} is\n{}\ninstead of\n{}", k, String::from_utf8_lossy(g), String::from_utf8_lossy(v))),
            None => return Err(format!("{} is missing", k)),
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("{} should not have been written", k)),
        None => Ok(()),
    }
}

/// numbers in the list following `after` in `line`
pub fn list_after(line: &str, after: &str) -> Option<Vec<f64>> {
    let rest = &line[line.find(after)? + after.len()..];
    let a = rest.find('[')?;
    let b = rest[a..].find(']')? + a;
    rest[a + 1..b].split(',').map(|s| s.trim().parse().ok()).collect()
}

/// the number following each `key` in `line`
pub fn numbers_after(line: &str, key: &str) -> Vec<i64> {
    line.match_indices(key)
        .filter_map(|(i, _)| {
            let rest = line[i + key.len()..].trim_start();
            let end = rest.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(rest.len());
            rest[..end].parse().ok()
        })
        .collect()
}
