use crate::explore::{current, Exec, Obj, ObjState, Op};
use std::{
    ops::{Deref, DerefMut},
    sync::{self, Arc, LockResult, PoisonError, TryLockError, TryLockResult},
};

/// The object is made when a scheduled thread comes along first.
struct Site(sync::Mutex<Option<(usize, Arc<Exec>, Obj)>>);

impl Site {
    const fn new() -> Site {
        Site(sync::Mutex::new(None))
    }
    fn get(&self) -> Option<(Arc<Exec>, Obj, usize)> {
        let (ex, me) = current()?;
        let key = Arc::as_ptr(&ex) as usize;
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        match &*s {
            Some((k, _, o)) if *k == key => Some((ex, *o, me)),
            _ => {
                let o = ex.new_obj(ObjState::default());
                *s = Some((key, Arc::clone(&ex), o));
                Some((ex, o, me))
            }
        }
    }
    fn point(&self, op: fn(Obj) -> Op) {
        if let Some((ex, o, me)) = self.get() {
            ex.point(me, op(o));
        }
    }
    fn set(&self, f: impl FnOnce(&mut ObjState)) {
        if let Some((ex, o, _)) = self.get() {
            ex.with_obj(o, f);
        }
    }
}

pub struct Mutex<T: ?Sized> {
    site: Site,
    inner: sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    g: Option<sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex {
            site: Site::new(),
            inner: sync::Mutex::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn take(&self) -> LockResult<MutexGuard<'_, T>> {
        let r = self.inner.lock();
        self.site.set(|s| s.writer = true);
        match r {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard {
                m: self,
                g: Some(e.into_inner()),
            })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.site.point(Op::Lock);
        self.take()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        self.site.point(Op::TryLock);
        match self.inner.try_lock() {
            Ok(g) => {
                self.site.set(|s| s.writer = true);
                Ok(MutexGuard { m: self, g: Some(g) })
            }
            Err(TryLockError::WouldBlock) => {
                if let Some((ex, o, me)) = self.site.get() {
                    ex.set_idle(me, Op::TryLock(o));
                }
                Err(TryLockError::WouldBlock)
            }
            Err(TryLockError::Poisoned(e)) => {
                self.site.set(|s| s.writer = true);
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                    m: self,
                    g: Some(e.into_inner()),
                })))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}

impl<T> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        self.m.site.point(Op::Unlock);
        self.g = None;
        self.m.site.set(|s| s.writer = false);
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}

pub struct RwLock<T: ?Sized> {
    site: Site,
    inner: sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    m: &'a Site,
    g: Option<sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    m: &'a Site,
    g: Option<sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            site: Site::new(),
            inner: sync::RwLock::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.site.point(Op::ReadLock);
        let r = self.inner.read();
        self.site.set(|s| s.readers += 1);
        match r {
            Ok(g) => Ok(RwLockReadGuard { m: &self.site, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard {
                m: &self.site,
                g: Some(e.into_inner()),
            })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.site.point(Op::Lock);
        let r = self.inner.write();
        self.site.set(|s| s.writer = true);
        match r {
            Ok(g) => Ok(RwLockWriteGuard { m: &self.site, g: Some(g) }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard {
                m: &self.site,
                g: Some(e.into_inner()),
            })),
        }
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.m.point(Op::Unlock);
        self.g = None;
        self.m.set(|s| s.readers -= 1);
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.m.point(Op::Unlock);
        self.g = None;
        self.m.set(|s| s.writer = false);
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}

/// Which sleeper a notification wakes is up to the scheduler.
pub struct Condvar {
    site: Site,
    inner: sync::Condvar,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar {
            site: Site::new(),
            inner: sync::Condvar::new(),
        }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        match self.site.get() {
            None => {
                let inner = g.g.take().unwrap();
                let r = self.inner.wait(inner);
                match r {
                    Ok(i) => {
                        g.g = Some(i);
                        Ok(g)
                    }
                    Err(e) => {
                        g.g = Some(e.into_inner());
                        Err(PoisonError::new(g))
                    }
                }
            }
            Some((ex, o, me)) => {
                // asleep before the lock is released
                ex.with_obj(o, |s| s.asleep += 1);
                drop(g);
                ex.point(me, Op::Wake(o));
                ex.with_obj(o, |s| {
                    s.asleep -= 1;
                    s.wakes -= 1;
                });
                m.lock()
            }
        }
    }
    pub fn notify_one(&self) {
        self.inner.notify_one();
        self.site.point(Op::Notify);
        self.site.set(|s| s.wakes = (s.wakes + 1).min(s.asleep));
    }
    pub fn notify_all(&self) {
        self.inner.notify_all();
        self.site.point(Op::Notify);
        self.site.set(|s| s.wakes = s.asleep);
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
