//! Reader-writer lock and mutex with the interface of parking_lot and the same admission rules: a waiting writer keeps new
//! readers out (unless they are recursive ones), an upgradable reader keeps out other upgradable readers and writers.
use std::cell::UnsafeCell;

pub use lock_api;
pub mod sched;

#[cfg(feature = "send_guard")]
type Marker = lock_api::GuardSend;
#[cfg(not(feature = "send_guard"))]
type Marker = lock_api::GuardNoSend;

#[derive(Default)]
struct St {
    /// Taken by a writer, perhaps one still waiting for readers to leave
    writer: bool,
    upgradable: bool,
    readers: usize,
}

/// Only ever touched by the thread which the scheduler lets run.
pub struct RawRwLock(UnsafeCell<St>);
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}

impl RawRwLock {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut St {
        unsafe { &mut *self.0.get() }
    }
    fn key(&self) -> usize {
        self.0.get() as usize
    }
    fn wait(&self, what: &'static str, ready: impl Fn(&St) -> bool) {
        while !ready(self.st()) {
            if !sched::block(self.key(), what) {
                return;
            }
        }
    }
    fn released(&self) {
        sched::wake(self.key());
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    type GuardMarker = Marker;
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock(UnsafeCell::new(St {
        writer:     false,
        upgradable: false,
        readers:    0,
    }));
    fn lock_shared(&self) {
        sched::point();
        self.wait("read", |s| !s.writer);
        self.st().readers += 1;
    }
    fn try_lock_shared(&self) -> bool {
        sched::point();
        let s = self.st();
        if s.writer {
            return false;
        }
        s.readers += 1;
        true
    }
    unsafe fn unlock_shared(&self) {
        self.st().readers -= 1;
        self.released();
        sched::point();
    }
    fn lock_exclusive(&self) {
        sched::point();
        self.wait("write", |s| !s.writer && !s.upgradable);
        self.st().writer = true;
        self.wait("write: readers", |s| s.readers == 0);
    }
    fn try_lock_exclusive(&self) -> bool {
        sched::point();
        let s = self.st();
        if s.writer || s.upgradable || s.readers > 0 {
            return false;
        }
        s.writer = true;
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.st().writer = false;
        self.released();
        sched::point();
    }
    fn is_locked(&self) -> bool {
        let s = self.st();
        s.writer || s.upgradable || s.readers > 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.st().writer
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        sched::point();
        self.wait("recursive read", |s| !s.writer || s.readers > 0);
        self.st().readers += 1;
    }
    fn try_lock_shared_recursive(&self) -> bool {
        sched::point();
        let s = self.st();
        if s.writer && s.readers == 0 {
            return false;
        }
        s.readers += 1;
        true
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        let s = self.st();
        s.writer = false;
        s.readers += 1;
        self.released();
        sched::point();
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        sched::point();
        self.wait("upgradable read", |s| !s.writer && !s.upgradable);
        self.st().upgradable = true;
    }
    fn try_lock_upgradable(&self) -> bool {
        sched::point();
        let s = self.st();
        if s.writer || s.upgradable {
            return false;
        }
        s.upgradable = true;
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.st().upgradable = false;
        self.released();
        sched::point();
    }
    unsafe fn upgrade(&self) {
        sched::point();
        let s = self.st();
        s.upgradable = false;
        s.writer = true;
        self.wait("upgrade", |s| s.readers == 0);
    }
    unsafe fn try_upgrade(&self) -> bool {
        sched::point();
        let s = self.st();
        if s.readers > 0 {
            return false;
        }
        s.upgradable = false;
        s.writer = true;
        true
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        let s = self.st();
        s.upgradable = false;
        s.readers += 1;
        self.released();
        sched::point();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        let s = self.st();
        s.writer = false;
        s.upgradable = true;
        self.released();
        sched::point();
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

pub struct RawMutex(UnsafeCell<bool>);
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    type GuardMarker = Marker;
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(UnsafeCell::new(false));
    fn lock(&self) {
        sched::point();
        while unsafe { *self.0.get() } {
            if !sched::block(self.0.get() as usize, "mutex") {
                break;
            }
        }
        unsafe { *self.0.get() = true }
    }
    fn try_lock(&self) -> bool {
        sched::point();
        unsafe { !std::mem::replace(&mut *self.0.get(), true) }
    }
    unsafe fn unlock(&self) {
        *self.0.get() = false;
        sched::wake(self.0.get() as usize);
        sched::point();
    }
    fn is_locked(&self) -> bool {
        unsafe { *self.0.get() }
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
