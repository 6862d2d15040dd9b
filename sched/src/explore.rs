//! Runs a closure under every schedule, up to reordering of independent steps. One step is one
//! announced operation together with all thread-local work up to the next announcement.
//! Stateless depth-first search with dynamic partial-order reduction (Flanagan, Godefroid 2005)
//! and sleep sets; the reduction can be switched off, to compare.
use std::{
    cell::RefCell,
    collections::HashMap,
    panic::{self, AssertUnwindSafe},
    sync::{Arc, Condvar, Mutex, MutexGuard},
    thread,
};

pub type Tid = usize;
pub type Obj = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Send(Obj),
    Recv(Obj),
    TryRecv(Obj),
    DropSender(Obj),
    DropReceiver(Obj),
    Join(Tid),
    Lock(Obj),
    ReadLock(Obj),
    TryLock(Obj),
    Unlock(Obj),
    /// going to sleep on a condition variable is part of the unlocking, this is being woken
    Wake(Obj),
    Notify(Obj),
    Access(Obj),
    /// asks whether another thread has finished
    Peek(Tid),
    Yield,
    /// a place where others may overtake; matters to `Look` only
    Pause,
    /// looks at everything
    Look,
}

#[derive(Clone, Debug, Default)]
pub struct ObjState {
    pub len: usize,
    pub cap: Option<usize>,
    pub senders: usize,
    pub receiver: bool,
    pub writer: bool,
    pub readers: usize,
    /// condition variable: threads asleep, threads to be woken
    pub asleep: usize,
    pub wakes: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Waiting(Op),
    Running,
    Finished,
}

struct Th {
    status: Status,
    /// the last operation of this kind had no effect; pointless until another thread has moved
    idle: Option<Op>,
    clock: Vec<usize>,
    steps: usize,
    handle: Option<thread::JoinHandle<()>>,
}

struct Step {
    tid: Tid,
    op: Op,
    /// how many steps of this thread, this one included
    no: usize,
    clock: Vec<usize>,
}

struct Node {
    chosen: (Tid, Op),
    enabled: Vec<(Tid, Op)>,
    backtrack: Vec<bool>,
    /// threads whose step from here is covered elsewhere
    sleep: Vec<(Tid, Op)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// all continuations have been explored elsewhere
    Pruned,
    Deadlock(String),
    Endless,
    Broken(String),
}

struct State {
    threads: Vec<Th>,
    objs: HashMap<Obj, ObjState>,
    next_obj: Obj,
    current: Option<Tid>,
    abort: bool,
    end: Option<End>,
    main_done: bool,
    trace: Vec<Step>,
    next_sleep: Vec<(Tid, Op)>,
    stack: Vec<Node>,
    reduce: bool,
    max_steps: usize,
}

pub struct Exec {
    state: Mutex<State>,
    cv: Vec<Condvar>,
    init: fn(),
}

const MAX_THREADS: usize = 12;

struct Abort;

thread_local! {
    static CURRENT: RefCell<Option<(Arc<Exec>, Tid)>> = const { RefCell::new(None) };
}

pub fn current() -> Option<(Arc<Exec>, Tid)> {
    CURRENT.try_with(|c| c.borrow().clone()).unwrap_or(None)
}

fn lock(m: &Mutex<State>) -> MutexGuard<'_, State> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn object(op: Op) -> Option<Obj> {
    use Op::*;
    match op {
        Send(o) | Recv(o) | TryRecv(o) | DropSender(o) | DropReceiver(o) | Lock(o) | ReadLock(o) | TryLock(o) | Unlock(o) | Wake(o) | Notify(o) | Access(o) => Some(o),
        Join(_) | Peek(_) | Yield | Pause | Look => None,
    }
}

/// May the order of these steps of different threads matter?
fn dependent(a: (Tid, Op), b: (Tid, Op)) -> bool {
    use Op::*;
    match (a.1, b.1) {
        (Look, _) | (_, Look) => true,
        (Peek(t), _) if t == b.0 => true,
        (_, Peek(t)) if t == a.0 => true,
        (DropSender(_), DropSender(_)) | (DropSender(_), Send(_)) | (Send(_), DropSender(_)) | (ReadLock(_), ReadLock(_)) => false,
        (x, y) => object(x).is_some() && object(x) == object(y),
    }
}

fn join_clock(a: &mut Vec<usize>, b: &[usize]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

impl State {
    fn enabled(&self, t: Tid, op: Op) -> bool {
        if self.threads[t].idle == Some(op) {
            return false;
        }
        match op {
            Op::Recv(o) => self.objs[&o].len > 0 || self.objs[&o].senders == 0,
            Op::Send(o) => {
                let s = &self.objs[&o];
                !s.receiver || s.cap.map_or(true, |c| s.len < c)
            }
            Op::Join(u) => self.threads[u].status == Status::Finished,
            Op::Lock(o) => !self.objs[&o].writer && self.objs[&o].readers == 0,
            Op::ReadLock(o) => !self.objs[&o].writer,
            Op::Wake(o) => self.objs[&o].wakes > 0,
            _ => true,
        }
    }

    /// Steps which the announced ones race with have to be tried in the other order as well.
    fn find_races(&mut self, waiting: &[(Tid, Op)]) {
        for &(p, op) in waiting {
            let clock = &self.threads[p].clock;
            let race = self
                .trace
                .iter()
                .enumerate()
                .rev()
                .find(|(_, s)| s.tid != p && dependent((s.tid, s.op), (p, op)) && clock[s.tid] < s.no);
            let i = match race {
                Some((i, _)) if i < self.stack.len() => i,
                _ => continue,
            };
            let node = &self.stack[i];
            let who = if node.enabled.iter().any(|x| x.0 == p) {
                Some(p)
            } else {
                self.trace[i + 1..]
                    .iter()
                    .find(|s| clock[s.tid] >= s.no && node.enabled.iter().any(|x| x.0 == s.tid))
                    .map(|s| s.tid)
            };
            let node = &mut self.stack[i];
            match who {
                Some(q) => node.backtrack[q] = true,
                None => {
                    for x in &node.enabled {
                        node.backtrack[x.0] = true;
                    }
                }
            }
        }
    }

    fn pick(&mut self, from: Option<Tid>) -> Option<Tid> {
        let mut waiting = vec![];
        for (t, th) in self.threads.iter().enumerate() {
            if let Status::Waiting(op) = th.status {
                waiting.push((t, op));
            }
        }
        let mut enabled: Vec<(Tid, Op)> = waiting.iter().copied().filter(|&(t, op)| self.enabled(t, op)).collect();
        let idle = self.threads.iter().any(|t| t.idle.is_some());
        if enabled.is_empty() && idle {
            for t in &mut self.threads {
                t.idle = None;
            }
            enabled = waiting.iter().copied().filter(|&(t, op)| self.enabled(t, op)).collect();
        }
        if enabled.is_empty() {
            self.end = Some(End::Deadlock(format!("{:?}", waiting)));
            return None;
        }
        let d = self.trace.len();
        if d >= self.max_steps {
            self.end = Some(End::Endless);
            return None;
        }
        // prefer the running thread, since switching costs
        enabled.sort_by_key(|&(t, _)| (Some(t) != from, t));
        let chosen = if self.main_done {
            // what the closure has left behind just has to finish
            enabled[0]
        } else {
            self.find_races(&waiting);
            if d < self.stack.len() {
                let c = self.stack[d].chosen;
                if !enabled.contains(&c) {
                    self.end = Some(End::Broken(format!("not deterministic: {:?} is to be replayed, but {:?}", c, enabled)));
                    return None;
                }
            } else {
                let sleep = std::mem::take(&mut self.next_sleep);
                let c = match enabled.iter().find(|x| !sleep.iter().any(|s| s.0 == x.0)) {
                    Some(&c) => c,
                    None => {
                        self.end = Some(End::Pruned);
                        return None;
                    }
                };
                let mut backtrack = vec![false; MAX_THREADS];
                backtrack[c.0] = true;
                if !self.reduce || idle {
                    for x in &enabled {
                        backtrack[x.0] = true;
                    }
                }
                self.stack.push(Node {
                    chosen: c,
                    enabled,
                    backtrack,
                    sleep,
                });
            }
            let c = self.stack[d].chosen;
            // what sleeps stays asleep as long as it commutes
            self.next_sleep = if self.reduce {
                self.stack[d].sleep.iter().copied().filter(|&s| s.0 != c.0 && !dependent(s, c)).collect()
            } else {
                vec![]
            };
            c
        };
        for (t, th) in self.threads.iter_mut().enumerate() {
            if t != chosen.0 {
                th.idle = None;
            }
        }
        let (t, op) = chosen;
        let mut clock = self.threads[t].clock.clone();
        for s in &self.trace {
            if s.tid != t && dependent((s.tid, s.op), (t, op)) {
                join_clock(&mut clock, &s.clock);
            }
        }
        if let Op::Join(u) = op {
            let c = self.threads[u].clock.clone();
            join_clock(&mut clock, &c);
        }
        let th = &mut self.threads[t];
        th.steps += 1;
        clock[t] = th.steps;
        th.clock = clock.clone();
        let no = th.steps;
        self.trace.push(Step { tid: t, op, no, clock });
        Some(t)
    }
}

impl Exec {
    pub fn new_obj(&self, s: ObjState) -> Obj {
        let mut st = lock(&self.state);
        st.next_obj += 1;
        let o = st.next_obj;
        st.objs.insert(o, s);
        o
    }
    pub fn with_obj<T>(&self, o: Obj, f: impl FnOnce(&mut ObjState) -> T) -> T {
        f(lock(&self.state).objs.get_mut(&o).expect("object of this execution"))
    }
    pub fn set_idle(&self, t: Tid, op: Op) {
        lock(&self.state).threads[t].idle = Some(op);
    }
    pub fn finished(&self, t: Tid) -> bool {
        lock(&self.state).threads[t].status == Status::Finished
    }

    /// Announces an operation and returns when it is to be executed. `false`: the execution is
    /// being torn down, nothing must be waited for.
    pub fn point(&self, me: Tid, op: Op) -> bool {
        let mut st = lock(&self.state);
        if !st.abort {
            st.threads[me].status = Status::Waiting(op);
            self.hand_over(&mut st, Some(me));
            while !st.abort && st.current != Some(me) {
                st = self.cv[me].wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        st.threads[me].status = Status::Running;
        if st.abort {
            drop(st);
            if thread::panicking() {
                return false;
            }
            panic::panic_any(Abort);
        }
        true
    }

    fn notify_all(&self) {
        for c in &self.cv {
            c.notify_all();
        }
    }

    fn hand_over(&self, st: &mut State, from: Option<Tid>) {
        if st.threads.iter().any(|t| t.status == Status::Running) {
            // this thread has just been spawned, its parent goes on
            self.notify_all();
            return;
        }
        st.current = None;
        if st.threads.iter().all(|t| t.status == Status::Finished) {
            self.notify_all();
            return;
        }
        match st.pick(from) {
            Some(t) => {
                st.current = Some(t);
                if from != Some(t) {
                    self.cv[t].notify_all();
                }
            }
            None => {
                st.abort = true;
                self.notify_all();
            }
        }
    }

    pub fn spawn(self: &Arc<Self>, me: Tid, name: Option<String>, body: Box<dyn FnOnce() + Send + 'static>) -> Tid {
        let tid = {
            let mut st = lock(&self.state);
            let tid = st.threads.len();
            assert!(tid < MAX_THREADS, "more threads than the exploration is made for");
            let mut clock = st.threads[me].clock.clone();
            clock[tid] = 0;
            st.threads.push(Th {
                status: Status::Running,
                idle: None,
                clock,
                steps: 0,
                handle: None,
            });
            tid
        };
        let ex = Arc::clone(self);
        let mut b = thread::Builder::new().stack_size(2 << 20);
        if let Some(n) = name {
            b = b.name(n);
        }
        let handle = b
            .spawn(move || {
                (ex.init)();
                CURRENT.with(|c| *c.borrow_mut() = Some((Arc::clone(&ex), tid)));
                let _ = panic::catch_unwind(AssertUnwindSafe(body));
                CURRENT.with(|c| *c.borrow_mut() = None);
                let mut st = lock(&ex.state);
                st.threads[tid].status = Status::Finished;
                if st.abort {
                    ex.notify_all();
                } else {
                    ex.hand_over(&mut st, None);
                }
            })
            .expect("thread");
        // the child runs until it announces its first operation
        let mut st = lock(&self.state);
        st.threads[tid].handle = Some(handle);
        while st.threads[tid].status == Status::Running && !st.abort {
            st = self.cv[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        tid
    }
}

/// To be called from the explored closure: lets everything which is still going on overtake.
pub fn look() {
    if let Some((ex, me)) = current() {
        ex.point(me, Op::Look);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub steps: u64,
    pub longest: usize,
}

pub struct Run<T> {
    /// what the closure returned; `None`: it ended early or panicked
    pub value: Option<T>,
    pub end: Option<End>,
    pub schedule: Vec<(Tid, Op)>,
}

pub struct Options {
    pub reduce: bool,
    pub max_steps: usize,
    pub max_executions: u64,
    /// called at the beginning of every spawned thread
    pub init: fn(),
}

/// `judge` sees every complete execution and returns an error to stop.
pub fn explore<T>(opts: &Options, mut body: impl FnMut() -> T, mut judge: impl FnMut(&Run<T>) -> Result<(), String>) -> Result<Stats, String> {
    let mut stats = Stats::default();
    let mut stack: Vec<Node> = vec![];
    loop {
        let ex = Arc::new(Exec {
            state: Mutex::new(State {
                threads: vec![Th {
                    status: Status::Running,
                    idle: None,
                    clock: vec![0; MAX_THREADS],
                    steps: 0,
                    handle: None,
                }],
                objs: HashMap::new(),
                next_obj: 0,
                current: Some(0),
                abort: false,
                end: None,
                main_done: false,
                trace: vec![],
                next_sleep: vec![],
                stack: std::mem::take(&mut stack),
                reduce: opts.reduce,
                max_steps: opts.max_steps,
            }),
            cv: (0..MAX_THREADS).map(|_| Condvar::new()).collect(),
            init: opts.init,
        });
        CURRENT.with(|c| *c.borrow_mut() = Some((Arc::clone(&ex), 0)));
        let value = panic::catch_unwind(AssertUnwindSafe(&mut body));
        CURRENT.with(|c| *c.borrow_mut() = None);
        let (end, schedule);
        {
            let mut st = lock(&ex.state);
            st.threads[0].status = Status::Finished;
            end = st.end.clone();
            schedule = st.trace.iter().map(|s| (s.tid, s.op)).collect::<Vec<_>>();
            st.main_done = true;
            if !st.abort {
                ex.hand_over(&mut st, None);
            }
            while st.threads.iter().any(|t| t.status != Status::Finished) {
                st = ex.cv[0].wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        let handles: Vec<_> = lock(&ex.state).threads.iter_mut().filter_map(|t| t.handle.take()).collect();
        for h in handles {
            let _ = h.join();
        }
        stack = std::mem::take(&mut lock(&ex.state).stack);
        stats.steps += schedule.len() as u64;
        stats.longest = stats.longest.max(schedule.len());
        if end == Some(End::Pruned) {
            stats.pruned += 1;
        } else {
            stats.executions += 1;
            judge(&Run {
                value: value.ok(),
                end,
                schedule,
            })?;
        }
        // the next schedule
        loop {
            let node = match stack.last_mut() {
                Some(n) => n,
                None => return Ok(stats),
            };
            let c = node.chosen;
            node.sleep.push(c);
            let next = node.enabled.iter().copied().find(|x| node.backtrack[x.0] && !node.sleep.iter().any(|s| s.0 == x.0));
            match next {
                Some(x) => {
                    node.chosen = x;
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
        if stats.executions + stats.pruned >= opts.max_executions {
            return Err(format!("the bound of {} executions does not suffice", opts.max_executions));
        }
    }
}
