//! Stands in for `std` and `core` in a world: the same names, with threads and
//! synchronisation replaced by the ones the simulator schedules.
pub use ::std::*;
pub mod real {
    pub use ::std::*;
}
pub use shuttle;
pub use shuttle::thread_local;
pub mod hint {
    pub use ::std::hint::*;
    pub use shuttle::hint::spin_loop;
}
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{mpsc, Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            compiler_fence, fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{
        current, park, park_timeout, scope, sleep, spawn, yield_now, Builder, JoinHandle, LocalKey, Scope, ScopedJoinHandle, Thread, ThreadId,
    };
}
