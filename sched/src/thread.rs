use crate::explore::{Exec, Op, Tid};
use std::sync::{Arc, Mutex};
pub use std::thread::{available_parallelism, current, panicking, AccessError, LocalKey, Result, Thread, ThreadId};
use std::{
    any::Any,
    io, panic,
    panic::AssertUnwindSafe,
    time::Duration,
};

pub struct JoinHandle<T>(Kind<T>);

enum Kind<T> {
    Std(std::thread::JoinHandle<T>),
    Sched { ex: Arc<Exec>, tid: Tid, slot: Arc<Mutex<Option<Result<T>>>> },
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(self, name: String) -> Builder {
        Builder { name: Some(name) }
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(JoinHandle(match current_exec() {
            None => Kind::Std(std::thread::Builder::new().spawn(f)?),
            Some((ex, me)) => {
                let slot = Arc::new(Mutex::new(None));
                let s = Arc::clone(&slot);
                let tid = ex.spawn(
                    me,
                    self.name,
                    Box::new(move || {
                        let r = panic::catch_unwind(AssertUnwindSafe(f));
                        *s.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
                    }),
                );
                Kind::Sched { ex, tid, slot }
            }
        }))
    }
}

fn current_exec() -> Option<(Arc<Exec>, Tid)> {
    crate::explore::current()
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            Kind::Std(h) => h.join(),
            Kind::Sched { ex, tid, slot } => {
                if let Some((_, me)) = current_exec() {
                    ex.point(me, Op::Join(tid));
                }
                let r = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
                r.unwrap_or_else(|| Err(Box::new("torn down") as Box<dyn Any + Send>))
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Kind::Std(h) => h.is_finished(),
            Kind::Sched { ex, tid, .. } => {
                if let Some((_, me)) = current_exec() {
                    ex.point(me, Op::Peek(*tid));
                    let r = ex.finished(*tid);
                    if !r {
                        ex.set_idle(me, Op::Peek(*tid));
                    }
                    return r;
                }
                ex.finished(*tid)
            }
        }
    }
}

pub fn yield_now() {
    match current_exec() {
        None => std::thread::yield_now(),
        Some((ex, me)) => {
            ex.set_idle(me, Op::Yield);
            ex.point(me, Op::Yield);
        }
    }
}

pub fn sleep(d: Duration) {
    match current_exec() {
        None => std::thread::sleep(d),
        Some(_) => yield_now(),
    }
}
