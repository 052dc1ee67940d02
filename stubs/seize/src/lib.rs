//! Verification stand-in for `seize` 0.5.1.
//!
//! Same public surface as the part of the crate that masstree can use, with the
//! strongest reclamation the real contract allows: a retired object is reclaimed
//! at the first moment at which every guard that was active when it was retired
//! has been dropped (the real crate batches and usually reclaims much later).
//! The bookkeeping lives in the verification runtime (symbolic engine or native
//! replay runtime), so that it does not add shared-memory traffic of its own.
use std::marker::PhantomData;
use std::sync::atomic::{AtomicPtr, Ordering};

extern "C" {
    fn vs_guard_new_collector() -> u64;
    fn vs_guard_enter(collector: u64) -> u64;
    fn vs_guard_leave(collector: u64, guard: u64);
    fn vs_guard_retire(collector: u64, ptr: *mut u8, f: *const u8);
    /// Next reclaimable object of `collector`: stores pointer and function, returns 1; 0 if none.
    fn vs_guard_pop(collector: u64, all: u64, ptr: *mut *mut u8, f: *mut *const u8) -> u64;
}

pub mod reclaim {
    use crate::Collector;
    pub unsafe fn boxed<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { drop(Box::from_raw(ptr)) }
    }
    pub unsafe fn in_place<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { std::ptr::drop_in_place::<T>(ptr) }
    }
}

#[derive(Debug)]
pub struct Collector {
    id: u64,
}

impl Default for Collector {
    fn default() -> Self {
        Self::new()
    }
}

impl Collector {
    pub fn new() -> Self {
        Self { id: unsafe { vs_guard_new_collector() } }
    }
    pub fn batch_size(self, _n: usize) -> Self {
        self
    }
    pub fn enter(&self) -> LocalGuard<'_> {
        LocalGuard { collector: self, guard: unsafe { vs_guard_enter(self.id) }, _unsend: PhantomData }
    }
    pub fn enter_owned(&self) -> OwnedGuard<'_> {
        OwnedGuard { inner: self.enter() }
    }
    pub unsafe fn retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { vs_guard_retire(self.id, ptr.cast(), reclaim as *const u8) };
        self.drain(0);
    }
    pub unsafe fn reclaim_all(&self) {
        self.drain(1);
    }
    fn drain(&self, all: u64) {
        let mut p: *mut u8 = std::ptr::null_mut();
        let mut f: *const u8 = std::ptr::null();
        while unsafe { vs_guard_pop(self.id, all, &mut p, &mut f) } != 0 {
            let f: unsafe fn(*mut u8, &Collector) = unsafe { std::mem::transmute(f) };
            unsafe { f(p, self) };
        }
    }
}

impl Drop for Collector {
    fn drop(&mut self) {
        self.drain(1);
    }
}

impl Eq for Collector {}
impl PartialEq for Collector {
    fn eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}

pub trait Guard {
    fn refresh(&mut self);
    fn flush(&self);
    fn collector(&self) -> &Collector;
    fn thread_id(&self) -> usize;
    fn protect<T>(&self, ptr: &AtomicPtr<T>, _order: Ordering) -> *mut T {
        ptr.load(Ordering::SeqCst)
    }
    fn swap<T>(&self, ptr: &AtomicPtr<T>, value: *mut T, _order: Ordering) -> *mut T {
        ptr.swap(value, Ordering::SeqCst)
    }
    fn compare_exchange<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        _success: Ordering,
        _failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange(current, new, Ordering::SeqCst, Ordering::SeqCst)
    }
    fn compare_exchange_weak<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        success: Ordering,
        failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        self.compare_exchange(ptr, current, new, success, failure)
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector));
}

pub struct LocalGuard<'a> {
    collector: &'a Collector,
    guard: u64,
    _unsend: PhantomData<*mut ()>,
}

impl std::fmt::Debug for LocalGuard<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("LocalGuard")
    }
}

impl Guard for LocalGuard<'_> {
    fn refresh(&mut self) {
        unsafe { vs_guard_leave(self.collector.id, self.guard) };
        self.collector.drain(0);
        self.guard = unsafe { vs_guard_enter(self.collector.id) };
    }
    fn flush(&self) {}
    fn collector(&self) -> &Collector {
        self.collector
    }
    fn thread_id(&self) -> usize {
        0
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { self.collector.retire(ptr, reclaim) }
    }
}

impl Drop for LocalGuard<'_> {
    fn drop(&mut self) {
        unsafe { vs_guard_leave(self.collector.id, self.guard) };
        self.collector.drain(0);
    }
}

#[derive(Debug)]
pub struct OwnedGuard<'a> {
    inner: LocalGuard<'a>,
}
unsafe impl Sync for OwnedGuard<'_> {}
unsafe impl Send for OwnedGuard<'_> {}

impl Guard for OwnedGuard<'_> {
    fn refresh(&mut self) {
        self.inner.refresh()
    }
    fn flush(&self) {}
    fn collector(&self) -> &Collector {
        self.inner.collector
    }
    fn thread_id(&self) -> usize {
        0
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { self.inner.defer_retire(ptr, reclaim) }
    }
}
