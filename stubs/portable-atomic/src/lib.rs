//! Verification stand-in for `portable-atomic`: re-exports the compiler's atomics and hands
//! 128-bit operations to the verification runtime, so that each appears as one
//! indivisible access (the real crate uses inline assembly).
use core::cell::UnsafeCell;
pub use core::sync::atomic::{
    compiler_fence, fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
    AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering,
};
pub mod hint {
    pub use core::hint::spin_loop;
}

extern "C" {
    fn vs_a128_load(p: *const u128, ord: u64) -> u128;
    fn vs_a128_store(p: *mut u128, v: u128, ord: u64);
    /// op: 0 xchg, 1 cmpxchg (with `old`), 2 add, 3 sub, 4 and, 5 or, 6 xor. Returns the previous value.
    fn vs_a128_rmw(p: *mut u128, op: u64, old: u128, v: u128, ord: u64) -> u128;
}

#[inline(always)]
fn o(ord: Ordering) -> u64 {
    match ord {
        Ordering::Relaxed => 0,
        Ordering::Release => 1,
        Ordering::Acquire => 2,
        Ordering::AcqRel => 3,
        _ => 4,
    }
}

#[repr(C, align(16))]
pub struct AtomicU128 {
    v: UnsafeCell<u128>,
}
unsafe impl Send for AtomicU128 {}
unsafe impl Sync for AtomicU128 {}

impl AtomicU128 {
    pub const fn new(v: u128) -> Self {
        Self { v: UnsafeCell::new(v) }
    }
    #[inline(always)]
    pub fn load(&self, ord: Ordering) -> u128 {
        unsafe { vs_a128_load(self.v.get(), o(ord)) }
    }
    #[inline(always)]
    pub fn store(&self, v: u128, ord: Ordering) {
        unsafe { vs_a128_store(self.v.get(), v, o(ord)) }
    }
    #[inline(always)]
    pub fn swap(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 0, 0, v, o(ord)) }
    }
    #[inline(always)]
    pub fn compare_exchange(&self, old: u128, new: u128, ok: Ordering, _fail: Ordering) -> Result<u128, u128> {
        let r = unsafe { vs_a128_rmw(self.v.get(), 1, old, new, o(ok)) };
        if r == old {
            Ok(r)
        } else {
            Err(r)
        }
    }
    #[inline(always)]
    pub fn compare_exchange_weak(&self, old: u128, new: u128, ok: Ordering, fail: Ordering) -> Result<u128, u128> {
        self.compare_exchange(old, new, ok, fail)
    }
    #[inline(always)]
    pub fn fetch_add(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 2, 0, v, o(ord)) }
    }
    #[inline(always)]
    pub fn fetch_sub(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 3, 0, v, o(ord)) }
    }
    #[inline(always)]
    pub fn fetch_and(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 4, 0, v, o(ord)) }
    }
    #[inline(always)]
    pub fn fetch_or(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 5, 0, v, o(ord)) }
    }
    #[inline(always)]
    pub fn fetch_xor(&self, v: u128, ord: Ordering) -> u128 {
        unsafe { vs_a128_rmw(self.v.get(), 6, 0, v, o(ord)) }
    }
    pub fn fetch_update<F: FnMut(u128) -> Option<u128>>(
        &self,
        set: Ordering,
        fetch: Ordering,
        mut f: F,
    ) -> Result<u128, u128> {
        let mut prev = self.load(fetch);
        while let Some(next) = f(prev) {
            match self.compare_exchange(prev, next, set, fetch) {
                Ok(x) => return Ok(x),
                Err(x) => prev = x,
            }
        }
        Err(prev)
    }
    pub fn get_mut(&mut self) -> &mut u128 {
        self.v.get_mut()
    }
    pub fn into_inner(self) -> u128 {
        self.v.into_inner()
    }
    pub const fn is_lock_free() -> bool {
        true
    }
    pub const fn is_always_lock_free() -> bool {
        true
    }
    pub const fn as_ptr(&self) -> *mut u128 {
        self.v.get()
    }
}
impl core::fmt::Debug for AtomicU128 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Debug::fmt(&self.load(Ordering::Relaxed), f)
    }
}
impl Default for AtomicU128 {
    fn default() -> Self {
        Self::new(0)
    }
}
impl From<u128> for AtomicU128 {
    fn from(v: u128) -> Self {
        Self::new(v)
    }
}
