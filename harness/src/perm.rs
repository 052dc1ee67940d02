//! The permutation words: every operation, for every valid permutation value.
use crate::*;
use masstree::leaf_trait::TreePermutation;
use masstree::permuter::Permuter;
use masstree::{AtomicPermuter24, Freeze24Utils, Permuter24};

/// Uniform view of the two permutation words, so that one specification serves all widths.
pub trait P: Copy {
    const W: usize;
    fn any() -> Self;
    fn raw_slot(&self, i: usize) -> usize;
    fn raw_size(&self) -> usize;
}
impl P for Permuter24 {
    const W: usize = 24;
    fn any() -> Self {
        Permuter24::from_value(any_u128())
    }
    #[inline(always)]
    fn raw_slot(&self, i: usize) -> usize {
        ((self.value() >> (5 * i + 5)) & 31) as usize
    }
    #[inline(always)]
    fn raw_size(&self) -> usize {
        (self.value() & 31) as usize
    }
}
impl<const N: usize> P for Permuter<N> {
    const W: usize = N;
    fn any() -> Self {
        Permuter::from_value(any_u64())
    }
    #[inline(always)]
    fn raw_slot(&self, i: usize) -> usize {
        ((self.value() >> (4 * i + 4)) & 15) as usize
    }
    #[inline(always)]
    fn raw_size(&self) -> usize {
        (self.value() & 15) as usize
    }
}
/// Size within the width, every slot index in range, no slot index twice.
#[inline(always)]
fn valid<T: P>(p: &T) -> bool {
    let mut seen = 0u32;
    let mut ok = p.raw_size() <= T::W;
    for i in 0..T::W {
        let s = p.raw_slot(i);
        ok &= s < T::W;
        seen |= 1u32 << s;
    }
    ok & (seen == (1u32 << T::W) - 1)
}
/// Arbitrary valid permutation: all slots and the size symbolic.
#[inline(always)]
fn any_valid<T: P>() -> T {
    let p = T::any();
    assume(valid(&p));
    p
}
/// `n` holds at position i what `f(i)` says, for every position, and has the given size.
#[inline(always)]
fn shape<T: P>(n: &T, size: usize, f: impl Fn(usize) -> usize) -> bool {
    let mut ok = n.raw_size() == size;
    for i in 0..T::W {
        ok &= n.raw_slot(i) == f(i);
    }
    ok
}

macro_rules! scen {
    ($t:ty, $w:expr, $get:ident, $ins:ident, $rem:ident, $rtb:ident, $re:ident, $mk:ident) => {
        /// Accessors agree with the layout; empty and sorted constructors.
        #[unsafe(no_mangle)]
        pub extern "C" fn $get() {
            let p: $t = any_valid();
            let mut ok = p.size() == p.raw_size();
            for i in 0..$w {
                ok &= p.get(i) == p.raw_slot(i);
                ok &= TreePermutation::get(&p, i) == p.raw_slot(i);
            }
            check(ok, 1);
            check(p.back() == p.raw_slot($w - 1), 2);
            check(TreePermutation::back(&p) == p.raw_slot($w - 1) && TreePermutation::size(&p) == p.raw_size(), 3);
            let off = pick($w) as usize;
            assume(p.raw_size() + off < $w);
            check(p.back_at_offset(off) == p.raw_slot($w - 1 - off), 4);
            check(TreePermutation::back_at_offset(&p, off) == p.raw_slot($w - 1 - off), 5);
            let q = <$t>::from_value(p.value());
            check(shape(&q, p.raw_size(), |k| p.raw_slot(k)), 6);
            cover(1);
        }
        /// Constructors: nothing in use with slots handed out 0,1,2,..; and the first n slots in order.
        #[unsafe(no_mangle)]
        pub extern "C" fn $mk() {
            let e = <$t>::empty();
            check(valid(&e) && shape(&e, 0, |k| $w - 1 - k), 1);
            let n = any_below($w + 1) as usize;
            let s = <$t>::make_sorted(n);
            check(valid(&s), 2);
            let mut ok = s.raw_size() == n;
            for k in 0..$w {
                ok &= s.raw_slot(k) == if k < n || n == $w { k } else { $w - 1 - (k - n) };
            }
            check(ok, 3);
            if n < $w {
                check(s.back() == n, 4);
                cover(1);
            }
            cover(2);
        }
        /// Insert at any position: the back slot appears there, everything else keeps its order.
        #[unsafe(no_mangle)]
        pub extern "C" fn $ins() {
            let p: $t = any_valid();
            let i = pick($w) as usize;
            assume(p.raw_size() < $w && i <= p.raw_size());
            let want = |k: usize| {
                if k < i {
                    p.raw_slot(k)
                } else if k == i {
                    p.raw_slot($w - 1)
                } else {
                    p.raw_slot(k - 1)
                }
            };
            let mut n = p;
            let s = n.insert_from_back(i);
            check(s == p.raw_slot($w - 1), 1);
            check(shape(&n, p.raw_size() + 1, want), 2);
            let (m, s2) = p.insert_from_back_immutable(i);
            check(s2 == s, 3);
            check(shape(&m, p.raw_size() + 1, want), 4);
            cover(1);
            let mut t = p;
            let s3 = TreePermutation::insert_from_back(&mut t, i);
            let (u, s4) = TreePermutation::insert_from_back_immutable(&p, i);
            check(s3 == s && s4 == s && shape(&t, p.raw_size() + 1, want) && shape(&u, p.raw_size() + 1, want), 5);
        }
        /// Remove keeping the slot first in the free region.
        #[unsafe(no_mangle)]
        pub extern "C" fn $rem() {
            let p: $t = any_valid();
            let i = pick($w) as usize;
            assume(i < p.raw_size());
            let z = p.raw_size();
            let mut n = p;
            n.remove(i);
            let mut ok = n.raw_size() == z - 1;
            for k in 0..$w {
                let w = if k < i || k >= z {
                    p.raw_slot(k)
                } else if k == z - 1 {
                    p.raw_slot(i)
                } else {
                    p.raw_slot((k + 1) % $w)
                };
                ok &= n.raw_slot(k) == w;
            }
            check(ok, 1);
            cover(1);
        }
        /// Remove making the slot the next one to be handed out.
        #[unsafe(no_mangle)]
        pub extern "C" fn $rtb() {
            let p: $t = any_valid();
            let i = pick($w) as usize;
            assume(i < p.raw_size());
            let mut n = p;
            n.remove_to_back(i);
            check(
                shape(&n, p.raw_size() - 1, |k| {
                    if k < i {
                        p.raw_slot(k)
                    } else if k == $w - 1 {
                        p.raw_slot(i)
                    } else {
                        p.raw_slot(k + 1)
                    }
                }),
                1,
            );
            // undoes insert_from_back
            if p.raw_size() < $w {
                let mut q = p;
                let _ = q.insert_from_back(i);
                q.remove_to_back(i);
                check(shape(&q, p.raw_size(), |k| p.raw_slot(k)), 2);
                cover(2);
            }
            cover(1);
        }
        /// Exchange, free-slot swap, rotate, set, set_size.
        #[unsafe(no_mangle)]
        pub extern "C" fn $re() {
            let p: $t = any_valid();
            let i = pick($w) as usize;
            match part(5) {
                0 => {
                    let j = pick($w) as usize;
                    let mut n = p;
                    n.exchange(i, j);
                    let mut ok = n.raw_size() == p.raw_size();
                    for k in 0..$w {
                        let from = if k == i { j } else if k == j { i } else { k };
                        ok &= n.raw_slot(k) == p.raw_slot(from);
                    }
                    check(ok, 1);
                    cover(1);
                }
                1 => {
                    let j = pick($w) as usize;
                    assume(i >= p.raw_size() && j >= p.raw_size());
                    let (mut n, mut m) = (p, p);
                    n.swap_free_slots(i, j);
                    TreePermutation::swap_free_slots(&mut m, i, j);
                    let mut ok = n.raw_size() == p.raw_size() && m.raw_size() == p.raw_size();
                    for k in 0..$w {
                        let from = if k == i { j } else if k == j { i } else { k };
                        ok &= n.raw_slot(k) == p.raw_slot(from);
                        ok &= m.raw_slot(k) == p.raw_slot(from);
                    }
                    check(ok, 2);
                    cover(2);
                }
                2 => {
                    let j = pick($w + 1) as usize;
                    assume(i <= j);
                    let mut n = p;
                    n.rotate(i, j);
                    let mut ok = n.raw_size() == p.raw_size();
                    for k in 0..$w {
                        let from = if k < i { k } else { i + (k - i + (j - i)) % ($w - i) };
                        ok &= n.raw_slot(k) == p.raw_slot(from);
                    }
                    check(ok, 3);
                    cover(3);
                }
                3 => {
                    let s = any_below($w) as usize;
                    let mut n = p;
                    n.set(i, s);
                    check(shape(&n, p.raw_size(), |k| if k == i { s } else { p.raw_slot(k) }), 4);
                    cover(4);
                }
                _ => {
                    let z = any_below($w + 1) as usize;
                    let (mut n, mut m) = (p, p);
                    n.set_size(z);
                    TreePermutation::set_size(&mut m, z);
                    check(shape(&n, z, |k| p.raw_slot(k)) && shape(&m, z, |k| p.raw_slot(k)), 5);
                    cover(5);
                }
            }
        }
    };
}
scen!(Permuter24, 24, h_p24_get, h_p24_ins, h_p24_rem, h_p24_rtb, h_p24_re, h_p24_mk);
scen!(Permuter<15>, 15, h_p15_get, h_p15_ins, h_p15_rem, h_p15_rtb, h_p15_re, h_p15_mk);
scen!(Permuter<7>, 7, h_p7_get, h_p7_ins, h_p7_rem, h_p7_rtb, h_p7_re, h_p7_mk);
scen!(Permuter<3>, 3, h_p3_get, h_p3_ins, h_p3_rem, h_p3_rtb, h_p3_re, h_p3_mk);

/// Freezing marks the word, hides no other bit and is undone exactly; no valid word looks frozen.
#[unsafe(no_mangle)]
pub extern "C" fn h_freeze_word() {
    let p: Permuter24 = any_valid();
    let raw = p.value();
    check(!Freeze24Utils::is_frozen(raw), 1);
    check(!<Permuter24 as TreePermutation>::is_frozen_raw(raw), 2);
    let f = Freeze24Utils::freeze_raw(raw);
    check(<Permuter24 as TreePermutation>::freeze_raw(raw) == f, 3);
    check(Freeze24Utils::is_frozen(f) && <Permuter24 as TreePermutation>::is_frozen_raw(f), 4);
    let fp = Permuter24::from_value(f);
    let mut ok = fp.size() == p.size();
    for i in 0..23 {
        ok &= fp.get(i) == p.get(i);
    }
    check(ok, 5);
    check(Freeze24Utils::get_slot23(raw) as usize == p.get(23), 6);
    let u = Freeze24Utils::unfreeze_raw(f, Freeze24Utils::get_slot23(raw));
    check(u == raw, 7);
    check(!Freeze24Utils::is_frozen(u), 8);
    // freezing twice changes nothing more
    check(Freeze24Utils::freeze_raw(f) == f, 9);
    cover(1);
}

/// The atomic word: loads see what was stored, exchange succeeds exactly when the word is the expected one.
#[unsafe(no_mangle)]
pub extern "C" fn h_atomic_perm() {
    use std::sync::atomic::Ordering::*;
    let (a, b, c) = (any_u128(), any_u128(), any_u128());
    let w = AtomicPermuter24::from_permuter(Permuter24::from_value(a));
    check(w.load(Acquire).value() == a && w.load_raw(Acquire) == a, 1);
    let r = match pick(3) {
        0 => w.compare_exchange(Permuter24::from_value(b), Permuter24::from_value(c), AcqRel, Acquire).map(|p| p.value()).map_err(|p| p.value()),
        1 => w.compare_exchange_weak(Permuter24::from_value(b), Permuter24::from_value(c), AcqRel, Acquire).map(|p| p.value()).map_err(|p| p.value()),
        _ => w.compare_exchange_raw(b, c, AcqRel, Acquire),
    };
    if a == b {
        check(r == Ok(a), 2);
        check(w.load_raw(Acquire) == c, 3);
        cover(1);
    } else {
        check(r == Err(a), 4);
        check(w.load_raw(Acquire) == a, 5);
        cover(2);
    }
    w.store(Permuter24::from_value(b), Release);
    check(w.load_raw(Acquire) == b, 6);
    w.store_raw(a, Release);
    check(w.load(Acquire).value() == a, 7);
    let d = AtomicPermuter24::new();
    check(d.load(Acquire).value() == Permuter24::empty().value(), 8);
}
