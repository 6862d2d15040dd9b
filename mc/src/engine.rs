//! Exhaustive-enumeration engine: indexed families of executions, run in parallel, each decided
//! by an oracle. Every case has a key `family:index`, which replays it on its own.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::HashSet,
    fs,
    hash::{Hash, Hasher},
    io::Write,
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicIsize, AtomicU64, Ordering},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

//------------------------------------------------------------------------------------------------//
// memory cap: a case which allocates without bound is a violation and must not take down the box

pub struct Capped;
static LIVE: AtomicIsize = AtomicIsize::new(0);
const CAP: isize = 10 << 30;
thread_local! {
    static PENDING: Cell<isize> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn account(delta: isize) {
    let _ = PENDING.try_with(|p| {
        let v = p.get() + delta;
        if v > (1 << 20) || v < -(1 << 20) {
            p.set(0);
            let now = LIVE.fetch_add(v, Ordering::Relaxed).wrapping_add(v);
            if now > CAP {
                let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
                emergency(slot, "memory grows without bound");
            }
        } else {
            p.set(v);
        }
    });
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

//------------------------------------------------------------------------------------------------//
// watchdog slots

const SLOTS: usize = 64;
struct Slot {
    busy: AtomicBool,
    idx: AtomicU64,
    since_ms: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const NEW_SLOT: Slot = Slot {
    busy: AtomicBool::new(false),
    idx: AtomicU64::new(0),
    since_ms: AtomicU64::new(0),
};
static SLOT_TABLE: [Slot; SLOTS] = [NEW_SLOT; SLOTS];
static CUR_FAMILY: Mutex<String> = Mutex::new(String::new());
static PROP: Mutex<String> = Mutex::new(String::new());
static HANG_MS: AtomicU64 = AtomicU64::new(60_000);
static EMERGENCY: AtomicBool = AtomicBool::new(false);

fn now_ms() -> u64 {
    use std::sync::Once;
    static INIT: Once = Once::new();
    static mut START: Option<Instant> = None;
    unsafe {
        INIT.call_once(|| START = Some(Instant::now()));
        START.as_ref().unwrap().elapsed().as_millis() as u64
    }
}

fn emergency(slot: usize, what: &str) -> ! {
    if EMERGENCY.swap(true, Ordering::SeqCst) {
        loop {
            thread::sleep(Duration::from_secs(1));
        }
    }
    LIVE.store(0, Ordering::Relaxed);
    let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let fam = CUR_FAMILY.lock().map(|p| p.clone()).unwrap_or_default();
    let idx = if slot < SLOTS {
        SLOT_TABLE[slot].idx.load(Ordering::SeqCst)
    } else {
        0
    };
    let msg = format!("{} in case {}:{}", what, fam, idx);
    report_violation(&prop, &fam, idx, &msg);
    std::process::exit(1)
}

pub fn out_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_OUT").unwrap_or_else(|_| "/verif/out".into()))
}

pub fn report_violation(prop: &str, fam: &str, idx: u64, msg: &str) {
    let dir = out_dir().join("replay");
    let _ = fs::create_dir_all(&dir);
    let safe: String = fam
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
        .collect();
    let path = dir.join(format!("{}-{}-{}.txt", prop, safe, idx));
    let text = format!(
        "property: {}\ncase: {}:{}\nreplay: bash /verif/check.sh {} --case {}:{}\n\n{}\n",
        prop, fam, idx, prop, fam, idx, msg
    );
    let _ = fs::write(&path, text);
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "VIOLATION property={} replay={}", prop, path.display());
    let short: String = msg.chars().take(1500).collect();
    let _ = writeln!(out, "  case {}:{}: {}", fam, idx, short);
    let _ = out.flush();
}

//------------------------------------------------------------------------------------------------//
// panics of the code under test are observations

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// no panic-messages at all: for code under test which panics in threads of its own
pub static MUTE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn install_panic_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false) || MUTE.load(std::sync::atomic::Ordering::Relaxed);
        let msg = format!("{}", info);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg);
        if !quiet {
            default(info);
        }
    }));
}

pub fn set_quiet(q: bool) {
    QUIET.with(|c| c.set(q));
}

/// Runs code under test; a panic becomes an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

//------------------------------------------------------------------------------------------------//
// context of one check

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Counters of one worker.
pub struct Local {
    pub transitions: u64,
    pub evaluations: u64,
    pub validated: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    finished: u64,
    pub verbose: bool,
    pub worker: usize,
}

impl Local {
    pub fn new(worker: usize) -> Local {
        Local {
            transitions: 0,
            evaluations: 0,
            validated: 0,
            outcomes: HashSet::new(),
            samples: Vec::new(),
            known: Vec::new(),
            finished: 0,
            verbose: false,
            worker,
        }
    }
    /// one operation on the real code
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// one judgement by the oracle
    #[inline]
    pub fn eval(&mut self, n: u64) {
        self.evaluations += n;
    }
    /// remember an observed outcome (to report how many distinct ones were seen)
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 50_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
}

struct Fam {
    name: String,
    rule: String,
    cases: u64,
    skipped: bool,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    only: Option<(String, u64)>,
    fams: Vec<Fam>,
    states: u64,
    transitions: u64,
    evaluations: u64,
    validated: u64,
    finished: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    violations: u64,
    known_seen: Vec<String>,
    start: Instant,
    pub level: &'static str,
    pub workers: usize,
    scratch: PathBuf,
}

pub type Verdict = Result<(), String>;

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<(String, u64)>) -> Ctx {
        *PROP.lock().unwrap() = prop.to_string();
        now_ms();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let workers = thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let scratch = PathBuf::from(
            std::env::var("MC_SCRATCH")
                .unwrap_or_else(|_| format!("/tmp/mc-scratch-{}-{}", prop, std::process::id())),
        );
        // files in memory, if there is such a place
        let shm = PathBuf::from(format!("/dev/shm/mc-{}-{}", prop, std::process::id()));
        let scratch = if std::env::var("MC_SCRATCH").is_err() && fs::create_dir_all(&shm).is_ok() { shm } else { scratch };
        fs::create_dir_all(&scratch).expect("scratch");
        thread::spawn(|| loop {
            thread::sleep(Duration::from_millis(250));
            let limit = HANG_MS.load(Ordering::SeqCst);
            for (i, s) in SLOT_TABLE.iter().enumerate() {
                if s.busy.load(Ordering::SeqCst) {
                    let since = s.since_ms.load(Ordering::SeqCst);
                    if now_ms().saturating_sub(since) > limit && s.busy.load(Ordering::SeqCst) {
                        emergency(i, "no answer (hang)");
                    }
                }
            }
        });
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            only,
            fams: vec![],
            states: 0,
            transitions: 0,
            evaluations: 0,
            validated: 0,
            finished: 0,
            outcomes: HashSet::new(),
            samples: vec![],
            violations: 0,
            known_seen: vec![],
            start: Instant::now(),
            level: "model_checking",
            workers,
            scratch,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn scratch(&self) -> &Path {
        &self.scratch
    }

    pub fn hang_limit(&self, secs: u64) {
        HANG_MS.store(secs * 1000, Ordering::SeqCst);
    }

    pub fn family<F>(&mut self, name: &str, rule: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) -> Verdict + Sync,
    {
        self.family_with(name, rule, n, self.workers, f)
    }

    /// All cases 0..n of a family. Stops handing out cases after the first violations.
    pub fn family_with<F>(&mut self, name: &str, rule: &str, n: u64, workers: usize, f: F)
    where
        F: Fn(u64, &mut Local) -> Verdict + Sync,
    {
        let (lo, hi) = match &self.only {
            Some((fam, idx)) if fam == name => (*idx, *idx + 1),
            Some(_) => return,
            None => (0, n),
        };
        if self.violations > 0 {
            self.fams.push(Fam {
                name: name.into(),
                rule: rule.into(),
                cases: 0,
                skipped: true,
            });
            return;
        }
        *CUR_FAMILY.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let bad: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let done = Mutex::new(Vec::<Local>::new());
        let chunk = ((hi - lo) / (workers as u64 * 64)).max(1).min(4096);
        let verbose = self.only.is_some();
        thread::scope(|s| {
            for w in 0..workers {
                let (next, bad, done, f) = (&next, &bad, &done, &f);
                s.spawn(move || {
                    set_quiet(true);
                    SLOT.with(|c| c.set(w));
                    let slot = &SLOT_TABLE[w];
                    let mut local = Local::new(w);
                    local.verbose = verbose;
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= hi {
                            break;
                        }
                        let b = (a + chunk).min(hi);
                        for idx in a..b {
                            slot.idx.store(idx, Ordering::SeqCst);
                            slot.since_ms.store(now_ms(), Ordering::SeqCst);
                            slot.busy.store(true, Ordering::SeqCst);
                            let r = panic::catch_unwind(AssertUnwindSafe(|| f(idx, &mut local)));
                            slot.busy.store(false, Ordering::SeqCst);
                            let r = match r {
                                Ok(r) => r,
                                Err(_) => Err(LAST_PANIC.with(|p| format!("panic: {}", p.borrow()))),
                            };
                            if r.is_ok() {
                                local.finished += 1;
                            }
                            if let Err(msg) = r {
                                let mut bad = bad.lock().unwrap();
                                bad.push((idx, msg));
                                if bad.len() >= 3 {
                                    next.store(hi, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                        }
                        if bad.lock().unwrap().len() >= 3 {
                            break;
                        }
                    }
                    done.lock().unwrap().push(local);
                });
            }
        });
        let mut fam_trans = 0;
        for local in done.into_inner().unwrap() {
            fam_trans += local.transitions;
            self.transitions += local.transitions;
            self.evaluations += local.evaluations;
            self.validated += local.validated;
            self.finished += local.finished;
            self.outcomes.extend(local.outcomes.iter().map(|o| o ^ hash_str(name)));
            for k in local.known {
                if !self.known_seen.contains(&k) {
                    self.known_seen.push(k);
                }
            }
            for s in local.samples.into_iter().take(2) {
                let in_fam = format!("[{}]", name);
                if self.samples.iter().filter(|x| x.starts_with(&in_fam)).count() < 2 {
                    self.samples.push(format!("{} {}", in_fam, s));
                }
            }
        }
        self.states += hi - lo;
        self.fams.push(Fam {
            name: name.into(),
            rule: rule.into(),
            cases: hi - lo,
            skipped: false,
        });
        let mut bad = bad.into_inner().unwrap();
        bad.sort();
        eprintln!(
            "{} {}: {} cases, {} transitions, {:.1}s{}",
            self.prop,
            name,
            hi - lo,
            fam_trans,
            t0.elapsed().as_secs_f64(),
            if bad.is_empty() { "" } else { "  ** VIOLATED **" }
        );
        for (idx, msg) in bad.iter().take(3) {
            report_violation(&self.prop, name, *idx, msg);
            self.violations += 1;
        }
    }

    pub fn known(&mut self, what: &str) {
        if !self.known_seen.iter().any(|k| k == what) {
            self.known_seen.push(what.to_string());
        }
    }

    pub fn finish(self) -> i32 {
        let _ = fs::remove_dir_all(&self.scratch);
        for k in &self.known_seen {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if self.only.is_some() {
            println!("replayed: {} violation(s)", self.violations);
            return if self.violations > 0 { 1 } else { 0 };
        }
        let wall = self.start.elapsed().as_secs_f64();
        let rule = self
            .fams
            .iter()
            .map(|f| {
                format!(
                    "{} ({} cases{}): {}",
                    f.name,
                    f.cases,
                    if f.skipped { ", not run after a violation" } else { "" },
                    f.rule
                )
            })
            .collect::<Vec<_>>();
        let js = |s: &str| json_str(s);
        let coverage = format!(
            "{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {}, \"rule\": {}, \"families\": [{}], \"samples\": [{}], \"violations\": {}, \"known_findings_seen\": {}}}",
            self.states,
            self.transitions,
            self.validated.max(self.finished),
            self.evaluations,
            self.outcomes.len(),
            !self.fams.iter().any(|f| f.skipped),
            js(&format!("every case of every family, executed on the real code and judged by an independent oracle; distinct_nontrivial counts distinct observed outcomes. {}", rule.join(" | "))),
            self.fams.iter().map(|f| format!("{{\"name\": {}, \"cases\": {}, \"rule\": {}}}", js(&f.name), f.cases, js(&f.rule))).collect::<Vec<_>>().join(", "),
            self.samples.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.violations,
            self.known_seen.len(),
        );
        let text = format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {}, \"wall_s\": {:.3}}}\n",
            js(&self.prop),
            if self.quick() { "quick" } else { "thorough" },
            self.seed,
            self.level,
            coverage,
            wall
        );
        let dir = PathBuf::from(std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into()));
        let _ = fs::create_dir_all(&dir);
        fs::write(dir.join(format!("{}.json", self.prop)), text).expect("evidence");
        eprintln!(
            "{}: {} states, {} transitions, {} evaluations, {} distinct outcomes, {:.1}s, {} violation(s)",
            self.prop, self.states, self.transitions, self.evaluations, self.outcomes.len(), wall, self.violations
        );
        if self.violations > 0 {
            1
        } else {
            0
        }
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Mixed-radix decoder: takes digits off an index.
pub struct Dig(pub u64);
impl Dig {
    #[inline]
    pub fn take(&mut self, radix: u64) -> u64 {
        let d = self.0 % radix;
        self.0 /= radix;
        d
    }
}

pub fn pow(b: u64, e: u32) -> u64 {
    b.pow(e)
}

/// all permutations of 0..n, in lexicographic order
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], n, &mut out);
    out
}

#[allow(dead_code)]
pub fn arc<T>(t: T) -> Arc<T> {
    Arc::new(t)
}
