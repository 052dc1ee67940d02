//! Verification harnesses. Every `h_*` function is an entry point that the symbolic engine
//! executes from the compiler's IR; `vs_*` calls are answered by the engine (symbolically) or,
//! when a counterexample is replayed, by the native runtime `rt/rt.c`.
#![allow(clippy::all, clippy::pedantic, clippy::nursery, missing_docs)]
use std::alloc::{GlobalAlloc, Layout};

unsafe extern "C" {
    fn vs_alloc(size: usize, align: usize) -> *mut u8;
    fn vs_free(ptr: *mut u8, size: usize, align: usize);
    fn vs_u64(name: u64) -> u64;
    fn vs_bytes(ptr: *mut u8, len: u64);
    fn vs_choose(n: u64) -> u64;
    fn vs_part(n: u64) -> u64;
    fn vs_conc(v: u64) -> u64;
    fn vs_assume(c: bool);
    fn vs_assert(c: bool, id: u64);
    fn vs_cover(id: u64);
    fn vs_live() -> u64;
    fn vs_cpu(level: u64);
    fn vs_expect_panic(id: u64);
    fn vs_run2(mode: u64, f0: extern "C" fn(*mut u8), a0: *mut u8, f1: extern "C" fn(*mut u8), a1: *mut u8);
    fn vs_run3(
        mode: u64,
        f0: extern "C" fn(*mut u8),
        a0: *mut u8,
        f1: extern "C" fn(*mut u8),
        a1: *mut u8,
        f2: extern "C" fn(*mut u8),
        a2: *mut u8,
    );
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { vs_alloc(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { vs_free(p, l.size(), l.align()) }
    }
}
#[global_allocator]
static G: A = A;

#[inline(always)]
pub fn any_u64() -> u64 {
    unsafe { vs_u64(0) }
}
#[inline(always)]
pub fn any_u128() -> u128 {
    ((any_u64() as u128) << 64) | any_u64() as u128
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { vs_bytes(b.as_mut_ptr(), b.len() as u64) }
}
/// Symbolic bytes.
#[inline(always)]
pub fn any_bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
/// One of 0..n; every value becomes its own path.
#[inline(always)]
pub fn pick(n: u64) -> u64 {
    unsafe { vs_conc(vs_choose(n)) }
}
/// One of 0..n, each explored by a run of its own (all of them belong to the check).
#[inline(always)]
pub fn part(n: u64) -> u64 {
    unsafe { vs_part(n) }
}
/// A symbolic value in 0..n.
#[inline(always)]
pub fn any_below(n: u64) -> u64 {
    unsafe { vs_choose(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vs_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u64) {
    unsafe { vs_assert(c, id) }
}
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { vs_cover(id) }
}
#[inline(always)]
pub fn live() -> u64 {
    unsafe { vs_live() }
}
#[inline(always)]
pub fn expect_panic(id: u64) {
    unsafe { vs_expect_panic(id) }
}

/// Run `f` and `g` as two threads. `mode` 0: `f` is the writer whose stores are logged, `g` the reader
/// that observes every possible prefix; 512: the same on a weakly ordered processor (what the orderings in the
/// program do not promise may be seen in any order); `mode` k > 0: interleave with at most k preemptions; plus 256:
/// only `f` can be interrupted.
pub fn run2<F: FnMut(), H: FnMut()>(mode: u64, f: &mut F, g: &mut H) {
    extern "C" fn tramp<T: FnMut()>(p: *mut u8) {
        let t = unsafe { &mut *(p as *mut T) };
        t();
    }
    unsafe { vs_run2(mode, tramp::<F>, f as *mut F as *mut u8, tramp::<H>, g as *mut H as *mut u8) }
}

/// Two writers, interleaved with at most `k` preemptions at their stores to shared memory, and a reader that
/// observes every possible prefix of what they do.
pub fn run3<F: FnMut(), G: FnMut(), H: FnMut()>(k: u64, f: &mut F, g: &mut G, h: &mut H) {
    extern "C" fn tramp<T: FnMut()>(p: *mut u8) {
        let t = unsafe { &mut *(p as *mut T) };
        t();
    }
    let p = |x: *mut u8| x;
    unsafe {
        vs_run3(k, tramp::<F>, p(f as *mut F as *mut u8), tramp::<G>, p(g as *mut G as *mut u8), tramp::<H>, p(h as *mut H as *mut u8))
    }
}

/// Everything allocated within `f` is freed when it returns.
#[inline(always)]
pub fn balanced(f: impl FnOnce()) {
    let base = live();
    f();
    check(live() == base, 90);
}

/// Equality that does not branch on the contents.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}

mod conc;
mod keys;
mod life;
mod nodes;
mod perm;
mod seq;
mod vals;
mod vers;
mod weak;
