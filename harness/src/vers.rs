//! Version words and node locks.
use crate::*;
use masstree::nodeversion::{LockGuard, NodeVersion};
use std::cell::Cell;
use std::time::Duration;

const LOCK: u32 = 1;
const INS: u32 = 2;
const SPL: u32 = 4;
const DEL: u32 = 1 << 29;
const ROOT: u32 = 1 << 30;
const LEAF: u32 = 1 << 31;
const UNUSED: u32 = 1 << 28;
const VINS: u32 = 63 << 3;

/// A version word as any unlocked node may carry it: any flags, any counter values.
fn any_unlocked() -> u32 {
    let v = any_u64() as u32;
    v & !(LOCK | INS | SPL | UNUSED)
}

/// Flag accessors read the flag they name, whatever else is set.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_flags() {
    let v = any_u64() as u32;
    let n = NodeVersion::from_value(v);
    check(n.is_leaf() == (v & LEAF != 0), 1);
    check(n.is_root() == (v & ROOT != 0), 2);
    check(n.is_deleted() == (v & DEL != 0), 3);
    check(n.is_locked() == (v & LOCK != 0), 4);
    check(n.is_inserting() == (v & INS != 0), 5);
    check(n.is_splitting() == (v & SPL != 0), 6);
    check(n.is_dirty() == (v & (INS | SPL) != 0), 7);
    check(n.is_split_locked() == (v & (SPL | LOCK) == SPL | LOCK), 8);
    check(n.value() == v && n.clone().value() == v, 9);
    n.mark_root();
    check(n.value() == v | ROOT, 10);
    n.mark_nonroot();
    check(n.value() == v & !ROOT, 11);
    let a = NodeVersion::new(true);
    check(a.is_leaf() && !a.is_root() && !a.is_locked() && !a.is_dirty() && !a.is_deleted(), 12);
    let b = NodeVersion::new(false);
    check(!b.is_leaf() && !b.is_root() && !b.is_locked() && !b.is_dirty() && !b.is_deleted(), 13);
    cover(1);
}

/// One critical section on any unlocked word, with any marks: what readers see before, during and after.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_section() {
    let v0 = any_unlocked();
    let n = NodeVersion::from_value(v0);
    let seen = n.stable();
    check(seen == v0, 1);
    check(!n.has_changed(seen) && !n.has_split(seen) && !n.has_changed_or_locked(seen) && !n.simple_has_split(seen), 2);
    let mut g: LockGuard<'_> = match pick(4) {
        0 => n.lock(),
        1 => n.lock_with_yield(),
        2 => match n.try_lock_for(Duration::from_millis(1)) {
            Some(g) => g,
            None => {
                check(false, 3);
                return;
            }
        },
        _ => match n.try_lock() {
            Some(g) => g,
            None => {
                check(false, 4);
                return;
            }
        },
    };
    check(n.is_locked() && n.is_dirty(), 5);
    check(n.try_lock().is_none(), 6);
    check(n.has_changed_or_locked(seen), 7);
    check(n.is_leaf() == (v0 & LEAF != 0) && n.is_root() == (v0 & ROOT != 0) && n.is_deleted() == (v0 & DEL != 0), 8);
    let marks = pick(16);
    let (ins, spl, del, non) = (marks & 1 != 0, marks & 2 != 0, marks & 4 != 0, marks & 8 != 0);
    if ins {
        g.mark_insert();
    }
    if spl {
        g.mark_split();
        check(n.is_splitting(), 9);
        check(n.has_changed(seen), 10);
    }
    if non {
        g.mark_nonroot();
        check(!n.is_root(), 11);
    }
    if del {
        g.mark_deleted();
        check(n.is_deleted(), 12);
    }
    check(g.locked_value() == n.value(), 13);
    check(n.is_locked() && n.is_dirty() && n.try_lock().is_none(), 14);
    drop(g);
    check(!n.is_locked() && !n.is_dirty(), 15);
    let v1 = n.stable();
    check(n.has_changed(seen) && n.has_changed_or_locked(seen), 16);
    check(n.is_leaf() == (v0 & LEAF != 0), 17);
    check(n.is_deleted() == (del || v0 & DEL != 0), 18);
    if spl || del {
        check(n.has_split(seen) && n.simple_has_split(seen), 19);
        check(!n.is_root(), 20);
        cover(1);
    } else {
        check(n.is_root() == (v0 & ROOT != 0 && !non), 21);
        if !(non && v0 & ROOT != 0) && v0 & VINS != VINS {
            check(!n.has_split(seen), 22);
        }
        cover(2);
    }
    check(v1 & UNUSED == 0, 23);
    // a second section is again visible to readers of either earlier state
    drop(n.lock());
    check(n.has_changed(v1) && n.has_changed(seen), 24);
    cover(3);
}

/// A reader holding any earlier word notices every one of many later sections: the counters do not come round.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_many() {
    let v0 = any_unlocked();
    let n = NodeVersion::from_value(v0);
    let seen = n.stable();
    let kind = pick(3);
    for i in 0..200u32 {
        let mut g = n.lock();
        if kind == 1 || (kind == 2 && i % 67 == 66) {
            g.mark_split();
        } else if kind == 2 {
            g.mark_insert();
        }
        drop(g);
        check(!n.is_locked() && !n.is_dirty(), 1);
        check(n.has_changed(seen) && n.has_changed_or_locked(seen), 2);
        check(n.is_leaf() == (v0 & LEAF != 0) && n.is_deleted() == (v0 & DEL != 0), 3);
    }
    cover(1);
}

/// A sibling born locked: not acquirable until released, released exactly once with a fresh split count.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_newborn() {
    let v0 = any_unlocked();
    let p = NodeVersion::from_value(v0);
    let mut g = p.lock();
    g.mark_split();
    let s = NodeVersion::new_for_split(&p);
    check(s.is_locked() && s.is_splitting() && s.is_split_locked(), 1);
    check(s.is_leaf() == (v0 & LEAF != 0) && !s.is_root() && !s.is_deleted(), 2);
    check(s.try_lock().is_none(), 3);
    let born = s.value();
    check(s.has_changed_or_locked(born), 4);
    s.unlock_for_split();
    check(!s.is_locked() && !s.is_dirty() && !s.is_root(), 5);
    check(s.is_leaf() == (v0 & LEAF != 0), 6);
    check(s.has_split(born) && s.has_changed(0) | (s.stable() != 0), 7);
    drop(g);
    let w = s.try_lock();
    check(w.is_some(), 8);
    cover(1);
}

struct Pair {
    n: NodeVersion,
    x: Cell<u64>,
    y: Cell<u64>,
    inside: Cell<u64>,
}
fn pair() -> Pair {
    Pair { n: NodeVersion::new(true), x: Cell::new(0), y: Cell::new(0), inside: Cell::new(0) }
}
#[inline(never)]
fn grab<'a>(n: &'a NodeVersion, how: u64) -> Option<LockGuard<'a>> {
    match how {
        0 => Some(n.lock()),
        1 => Some(n.lock_with_yield()),
        _ => n.try_lock(),
    }
}
#[inline(never)]
fn section(p: &Pair, how: u64, add: u64, split: bool) -> bool {
    let Some(mut g) = grab(&p.n, how) else { return false };
    check(p.inside.get() == 0, 90);
    p.inside.set(1);
    if split {
        g.mark_split();
    }
    let v = p.x.get();
    p.x.set(v.wrapping_add(add));
    p.y.set(p.y.get().wrapping_add(add));
    p.inside.set(0);
    drop(g);
    true
}

/// Two threads, every pair of acquire operations: sections never overlap and no update is lost.
#[unsafe(no_mangle)]
pub extern "C" fn h_lock_excl() {
    let p = pair();
    let (h0, h1) = (pick(3), pick(3));
    let s0 = pick(2) == 1;
    let (a, b) = (any_u64(), any_u64());
    let (mut r0, mut r1) = (0u64, 0u64);
    run2(
        3,
        &mut || {
            for _ in 0..2 {
                if section(&p, h0, a, s0) {
                    r0 += 1;
                }
            }
        },
        &mut || {
            for _ in 0..2 {
                if section(&p, h1, b, false) {
                    r1 += 1;
                }
            }
        },
    );
    let mut want = 0u64;
    for k in 0..2 {
        if k < r0 {
            want = want.wrapping_add(a);
        }
        if k < r1 {
            want = want.wrapping_add(b);
        }
    }
    check(p.x.get() == want && p.y.get() == want, 1);
    check(h0 == 2 || r0 == 2, 2);
    check(h1 == 2 || r1 == 2, 3);
    check(!p.n.is_locked() && !p.n.is_dirty(), 4);
    if r0 + r1 == 4 {
        cover(1);
    }
    if h0 == 2 && r0 < 2 {
        cover(2);
    }
}

/// Optimistic read of two words: whenever validation passes, both come from the same state.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_optread() {
    let p = pair();
    let (a, b) = (any_u64(), any_u64());
    p.x.set(a);
    p.y.set(a ^ 5);
    let split = pick(2) == 1;
    let mut got = None;
    let mut splitseen = None;
    run2(
        0,
        &mut || {
            for k in 0..2u64 {
                let mut g = p.n.lock();
                if split {
                    g.mark_split();
                }
                p.x.set(b.wrapping_add(k));
                p.y.set(b.wrapping_add(k) ^ 5);
                drop(g);
            }
        },
        &mut || {
            let v = p.n.stable();
            let x = p.x.get();
            let y = p.y.get();
            if !p.n.has_changed_or_locked(v) {
                got = Some((x, y));
            }
            splitseen = Some(p.n.has_split(v));
        },
    );
    if let Some((x, y)) = got {
        check(x ^ 5 == y, 1);
        check(x == a || x == b || x == b.wrapping_add(1), 2);
        cover(1);
    } else {
        cover(2);
    }
    if !split {
        check(splitseen == Some(false), 3);
    }
}

/// A reader that waits for a stable word never gets one in the middle of a section.
#[unsafe(no_mangle)]
pub extern "C" fn h_ver_stable() {
    let p = pair();
    let split = pick(2) == 1;
    let mut v = 0;
    let mut after = 0;
    run2(
        0,
        &mut || {
            let mut g = p.n.lock();
            if split {
                g.mark_split();
            }
            p.x.set(1);
            drop(g);
        },
        &mut || {
            v = p.n.stable();
            after = p.x.get();
        },
    );
    check(v & (LOCK | INS | SPL) == 0, 1);
    let fin = p.n.stable();
    // a word seen after the section implies the section's data is seen
    check(v != fin || after == 1, 2);
    if v == fin {
        cover(1);
    } else {
        cover(2);
    }
}

/// A lock that is held is not granted; waiting with a limit lasts as long as it says; a free lock is granted at once.
#[unsafe(no_mangle)]
pub extern "C" fn h_lock_wait() {
    let n = NodeVersion::new(pick(2) == 0);
    let d = Duration::from_micros([0, 1000, 2500][pick(3) as usize]);
    let held = n.lock();
    let before = n.value();
    check(n.try_lock().is_none(), 1);
    let t = std::time::Instant::now();
    check(n.try_lock_for(d).is_none(), 2);
    check(t.elapsed() >= d, 3);
    check(n.value() == before && n.is_locked(), 4);
    drop(held);
    check(!n.is_locked() && !n.is_dirty(), 5);
    let g = match pick(4) {
        0 => n.try_lock(),
        1 => n.try_lock_for(d),
        2 => Some(n.lock()),
        _ => Some(n.lock_with_yield()),
    };
    check(g.is_some() && n.is_locked(), 6);
    drop(g);
    check(!n.is_locked(), 7);
    cover(1);
}
