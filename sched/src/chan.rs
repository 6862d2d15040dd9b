use crate::explore::{current, Exec, ObjState, Obj, Op};
use std::{
    collections::VecDeque,
    fmt,
    sync::{
        mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError},
        Arc, Mutex, Condvar,
    },
    time::{Duration, Instant},
};

/// `None`: not under a scheduler
struct Chan<T> {
    sched: Option<(Arc<Exec>, Obj)>,
    inner: Mutex<Inner<T>>,
    cv: Condvar,
}

struct Inner<T> {
    queue: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receiver: bool,
}

fn lock<T>(c: &Chan<T>) -> std::sync::MutexGuard<'_, Inner<T>> {
    c.inner.lock().unwrap_or_else(|e| e.into_inner())
}

impl<T> Chan<T> {
    /// announces the operation; `false`: nothing must be waited for
    fn point(&self, op: fn(Obj) -> Op) -> bool {
        match (&self.sched, current()) {
            (Some((ex, o)), Some((_, me))) => ex.point(me, op(*o)),
            (Some(_), None) => false,
            (None, _) => true,
        }
    }
    fn pause(&self) {
        if let (Some((ex, _)), Some((_, me))) = (&self.sched, current()) {
            ex.point(me, Op::Pause);
        }
    }
    fn idle(&self, op: fn(Obj) -> Op) {
        if let (Some((ex, o)), Some((_, me))) = (&self.sched, current()) {
            ex.set_idle(me, op(*o));
        }
    }
    /// tells the scheduler about the state, and wakes whoever is not under it
    fn publish(&self, i: &Inner<T>) {
        if let Some((ex, o)) = &self.sched {
            ex.with_obj(*o, |s| {
                s.len = i.queue.len();
                s.cap = i.cap.map(|c| c.max(1));
                s.senders = i.senders;
                s.receiver = i.receiver;
            });
        }
        self.cv.notify_all();
    }
    fn send(&self, t: T, wait: bool) -> Result<(), TrySendError<T>> {
        let may_wait = self.point(if wait { Op::Send } else { Op::Access }) && self.sched.is_none() && wait;
        let mut i = lock(self);
        loop {
            if !i.receiver {
                return Err(TrySendError::Disconnected(t));
            }
            if i.cap.map_or(true, |c| i.queue.len() < c.max(1)) {
                break;
            }
            if !may_wait {
                return Err(TrySendError::Full(t));
            }
            i = self.cv.wait(i).unwrap_or_else(|e| e.into_inner());
        }
        i.queue.push_back(t);
        self.publish(&i);
        Ok(())
    }
    fn try_recv(&self) -> Result<T, TryRecvError> {
        self.point(Op::TryRecv);
        let mut i = lock(self);
        match i.queue.pop_front() {
            Some(t) => {
                self.publish(&i);
                Ok(t)
            }
            None if i.senders == 0 => Err(TryRecvError::Disconnected),
            None => {
                drop(i);
                self.idle(Op::TryRecv);
                Err(TryRecvError::Empty)
            }
        }
    }
    fn recv(&self) -> Result<T, RecvError> {
        let wait = self.point(Op::Recv) && self.sched.is_none();
        let mut i = lock(self);
        loop {
            if let Some(t) = i.queue.pop_front() {
                self.publish(&i);
                return Ok(t);
            }
            if i.senders == 0 || !wait {
                return Err(RecvError);
            }
            i = self.cv.wait(i).unwrap_or_else(|e| e.into_inner());
        }
    }
}

macro_rules! sender {
    ($name:ident) => {
        pub struct $name<T>(Arc<Chan<T>>);

        impl<T> Clone for $name<T> {
            fn clone(&self) -> Self {
                let mut i = lock(&self.0);
                i.senders += 1;
                self.0.publish(&i);
                drop(i);
                $name(Arc::clone(&self.0))
            }
        }

        impl<T> Drop for $name<T> {
            fn drop(&mut self) {
                self.0.point(Op::DropSender);
                let mut i = lock(&self.0);
                i.senders -= 1;
                self.0.publish(&i);
                drop(i);
                self.0.pause();
            }
        }

        impl<T> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(concat!(stringify!($name), " { .. }"))
            }
        }

        impl<T> $name<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t, true).map_err(|e| match e {
                    TrySendError::Full(t) | TrySendError::Disconnected(t) => SendError(t),
                })
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);

impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.send(t, false)
    }
}

pub struct Receiver<T>(Arc<Chan<T>>);

impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.point(Op::DropReceiver);
        let mut i = lock(&self.0);
        i.receiver = false;
        let rest = std::mem::take(&mut i.queue);
        self.0.publish(&i);
        drop(i);
        drop(rest);
        self.0.pause();
    }
}

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv()
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv()
    }
    /// under a scheduler: time is up as soon as there is nothing to receive
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let end = Instant::now() + d;
        loop {
            match self.0.try_recv() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    if self.0.sched.is_some() || Instant::now() >= end {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    std::thread::yield_now();
                }
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        sched: current().map(|(ex, _)| {
            let o = ex.new_obj(ObjState {
                senders: 1,
                receiver: true,
                cap: cap.map(|c| c.max(1)),
                ..ObjState::default()
            });
            (ex, o)
        }),
        inner: Mutex::new(Inner {
            queue: VecDeque::new(),
            cap,
            senders: 1,
            receiver: true,
        }),
        cv: Condvar::new(),
    })
}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender(Arc::clone(&c)), Receiver(c))
}

/// A channel of capacity 0 is treated as one of capacity 1.
pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = new(Some(cap));
    (SyncSender(Arc::clone(&c)), Receiver(c))
}
