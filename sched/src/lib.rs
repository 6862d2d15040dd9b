//! A stand-in for `std`: everything is std's, but threads, channels, locks and atomics hand
//! control to a scheduler whenever they do something another thread could notice. On a thread
//! which no scheduler controls, they behave like std's.
pub use std::*;

pub mod explore;

pub mod thread;

pub mod sync {
    pub use std::sync::*;
    pub use crate::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod mpsc {
        pub use crate::chan::*;
        pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    }
    pub mod atomic {
        pub use crate::atomics::*;
        pub use std::sync::atomic::{compiler_fence, fence, Ordering};
    }
}

mod atomics;
mod chan;
mod locks;
