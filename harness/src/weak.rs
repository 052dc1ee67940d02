//! Reader against writer on a weakly ordered processor: only what the orderings of the program promise is ordered.
use crate::*;
use crate::conc::{long, long_leaf, suffix_race};
use masstree::MassTree24Inline;

type TI = MassTree24Inline<u64>;
const WEAK: u64 = 512;

fn be(i: u64) -> [u8; 8] {
    i.to_be_bytes()
}
fn rd(t: &TI, k: &[u8], by_ref: bool) -> Option<u64> {
    let g = t.guard();
    if by_ref { t.get_ref(k, &g).copied() } else { t.get_with_guard(k, &g) }
}

/// Reader of any key while the writer inserts or updates any key in a small leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_insert() {
    let n = part(4);
    let t: TI = TI::new();
    for i in 1..=n {
        let _ = t.insert(&be(i << 8), i);
    }
    let (w, q) = (any_u64(), any_u64());
    let old = |x: u64| if x & 0xff == 0 && x >> 8 >= 1 && x >> 8 <= n { Some(x >> 8) } else { None };
    let by_ref = pick(2) == 1;
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            let r = t.insert(&be(w), 77);
            check(matches!(r, Ok(o) if o == old(w)), 1);
        },
        &mut || {
            got = rd(&t, &be(q), by_ref);
        },
    );
    if q == w {
        check(got == old(q) || got == Some(77), 2);
        if got == Some(77) { cover(1) } else { cover(2) }
    } else {
        check(got == old(q), 3);
        cover(3);
    }
}

/// Reader of a present key while the writer creates a layer for it.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_layer() {
    let t: TI = TI::new();
    let a = *b"prefix00A";
    let _ = t.insert(&a, 41);
    let sfx: [u8; 1] = any_bytes();
    let mut b = *b"prefix00B";
    b[8] = sfx[0];
    assume(b[8] != b'A');
    let by_ref = pick(2) == 1;
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            let r = t.insert(&b, 77);
            check(matches!(r, Ok(None)), 1);
        },
        &mut || {
            got = rd(&t, &a, by_ref);
        },
    );
    check(got == Some(41), 2);
    cover(1);
}

/// Reader of any present key while the writer's insert splits the full root leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_split() {
    let t: TI = TI::new();
    for i in 1..=24u64 {
        let _ = t.insert(&be(i << 8), i);
    }
    let w = ([0u64, 12, 24][pick(3) as usize] << 8) + 1;
    let k = any_below(24) + 1;
    let by_ref = pick(2) == 1;
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            let r = t.insert(&be(w), 77);
            check(matches!(r, Ok(None)), 1);
        },
        &mut || {
            got = rd(&t, &be(k << 8), by_ref);
        },
    );
    check(got == Some(k), 2);
    cover(1);
}

/// Reader of any key while the writer inserts; keys of different lengths, the writer may build layers.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_shapes() {
    let t: TI = TI::new();
    const L: [usize; 5] = [0, 3, 8, 9, 17];
    let p = part(25) as usize;
    let a: [u8; 17] = any_bytes();
    let b: [u8; 17] = any_bytes();
    let q: [u8; 17] = any_bytes();
    let (a, b, q) = (&a[..L[p % 5]], &b[..L[p / 5]], &q[..L[pick(5) as usize]]);
    check(matches!(t.insert(a, 1), Ok(None)), 1);
    let ab = same(a, b);
    let by_ref = pick(2) == 1;
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            let r = t.insert(b, 2);
            check(matches!(r, Ok(o) if o.is_some() == ab), 2);
        },
        &mut || {
            got = rd(&t, q, by_ref);
        },
    );
    if same(q, b) {
        let old = if ab { Some(1) } else { None };
        check(got == Some(2) || got == old, 3);
        cover(1);
    } else if same(q, a) {
        check(got == Some(1), 4);
        cover(2);
    } else {
        check(got.is_none(), 5);
        cover(3);
    }
}

/// Two updates of one key and two reads: the reader never goes back, whatever the key's shape.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_update() {
    let t: TI = TI::new();
    let shape = part(4);
    let kb = *b"updkey00tailtail";
    let k = match shape {
        0 | 1 => &kb[..8],
        _ => &kb[..13],
    };
    if shape == 1 {
        for i in 1..=5u64 {
            let _ = t.insert(&be(i << 8), i);
        }
    }
    if shape == 3 {
        let _ = t.insert(b"updkey00tail2", 5);
    }
    let v: [u64; 3] = [any_u64(), any_u64(), any_u64()];
    assume(v[0] != v[1] && v[1] != v[2] && v[0] != v[2]);
    let _ = t.insert(k, v[0]);
    let by_ref = pick(2) == 1;
    let (mut r1, mut r2) = (None, None);
    run2(
        WEAK,
        &mut || {
            for i in 1..3 {
                let r = t.insert(k, v[i]);
                check(matches!(r, Ok(Some(o)) if o == v[i - 1]), 1);
            }
        },
        &mut || {
            let g = t.guard();
            r1 = if by_ref { t.get_ref(k, &g).copied() } else { t.get_with_guard(k, &g) };
            r2 = if by_ref { t.get_with_guard(k, &g) } else { t.get_ref(k, &g).copied() };
        },
    );
    let rank = |r: Option<u64>| match r {
        Some(x) if x == v[0] => 1,
        Some(x) if x == v[1] => 2,
        Some(x) if x == v[2] => 3,
        _ => 0,
    };
    let (a, b) = (rank(r1), rank(r2));
    check(a > 0 && b > 0, 2);
    check(a <= b, 3);
    if a < b {
        cover(1);
    }
}

/// Two fresh keys inserted one after the other: a reader that sees the second sees the first afterwards.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_order() {
    let t: TI = TI::new();
    let n = [0u64, 3, 23, 24][part(4) as usize];
    for i in 1..=n {
        let _ = t.insert(&be(i << 8), i);
    }
    let w1 = (pick(3) * 12 << 8) + 1;
    let w2 = (pick(3) * 12 << 8) + 2;
    let by_ref = pick(2) == 1;
    let (mut r2, mut r1) = (None, None);
    run2(
        WEAK,
        &mut || {
            let _ = t.insert(&be(w1), 101);
            let _ = t.insert(&be(w2), 102);
        },
        &mut || {
            r2 = rd(&t, &be(w2), by_ref);
            r1 = rd(&t, &be(w1), by_ref);
        },
    );
    check(r2.is_none() || r2 == Some(102), 1);
    check(r1.is_none() || r1 == Some(101), 2);
    check(r2.is_none() || r1.is_some(), 3);
    if r2.is_some() {
        cover(1);
    }
}

use crate::conc::{grown, look2, put};
use crate::seq::order;

/// A reader of any present key while an insert splits a leaf below an inner node or a full inner node.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_inode() {
    let p = part(12);
    let by_ref = p >= 6;
    let p = p % 6;
    let deep = p & 1 == 1;
    let (o, min, n, want) = [(1u64, 30u64, 400u64, 2u64), (0, 100, 400, 3), (2, 100, 400, 3)][(p / 2) as usize];
    let (t, i) = grown(o, min, n, want, deep);
    check(i < n, 1);
    let w = (order(o, i, n) + 1) << 8;
    let k = any_u64();
    let mut present = false;
    for j in 0..i {
        present |= k == (order(o, j, n) + 1) << 8;
    }
    assume(present);
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            let r = put(&t, w, 77, deep);
            check(matches!(r, Ok(None)), 2);
        },
        &mut || got = look2(&t, k, deep, by_ref),
    );
    check(got == Some(k), 4);
    cover(1);
}

use masstree::nodeversion::NodeVersion;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Optimistic reads of two words that are written and read without any ordering of their own: the lock and the
/// version word alone have to order them.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_version() {
    let n = NodeVersion::new(true);
    let (a, b) = (any_u64(), any_u64());
    let x = Box::new((AtomicU64::new(a), AtomicU64::new(a ^ 5)));
    let split = pick(2) == 1;
    let how = pick(3);
    let mut got = None;
    let mut quiet = None;
    run2(
        WEAK,
        &mut || {
            for k in 0..2u64 {
                let g = match how {
                    0 => Some(n.lock()),
                    1 => Some(n.lock_with_yield()),
                    _ => n.try_lock(),
                };
                let Some(mut g) = g else {
                    check(false, 1);
                    return;
                };
                if split {
                    g.mark_split();
                }
                x.0.store(b.wrapping_add(k), Relaxed);
                x.1.store(b.wrapping_add(k) ^ 5, Relaxed);
                drop(g);
            }
        },
        &mut || {
            let v = n.stable();
            let p = x.0.load(Relaxed);
            let q = x.1.load(Relaxed);
            if !n.has_changed_or_locked(v) {
                got = Some((p, q));
            }
            let w = n.stable();
            let p = x.0.load(Relaxed);
            if !n.has_split(w) && !n.has_changed_or_locked(w) && split {
                quiet = Some((p, x.1.load(Relaxed), n.has_changed_or_locked(w)));
            }
        },
    );
    if let Some((p, q)) = got {
        check(p ^ 5 == q, 2);
        cover(1);
    }
    if let Some((p, q, false)) = quiet {
        check(p ^ 5 == q, 3);
        cover(2);
    }
}

/// An insert of any key that follows another thread's insert and learns of it only through the tree itself: the
/// node locks and links have to carry everything over.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_second() {
    let p = part(8);
    let n = [0u64, 3, 23, 24][p as usize & 3];
    let deep = p >= 4;
    let t: TI = TI::new();
    if deep {
        let _ = put(&t, 5, 5, true);
        let _ = put(&t, 6, 6, true);
    }
    for i in 1..=n {
        let _ = put(&t, i << 8, i, deep);
    }
    let a = [(30u64 << 8), 1, (12 << 8) + 1][pick(3) as usize];
    let b = any_u64();
    let old = |x: u64| {
        if x == a {
            Some(1001)
        } else if deep && (x == 5 || x == 6) {
            Some(x)
        } else if x & 0xff == 0 && x >> 8 >= 1 && x >> 8 <= n {
            Some(x >> 8)
        } else {
            None
        }
    };
    let (mut ra, mut rb) = (None, None);
    run2(
        WEAK,
        &mut || ra = put(&t, a, 1001, deep).ok(),
        &mut || rb = put(&t, b, 1002, deep).ok(),
    );
    check(ra == Some(None) && rb == Some(old(b)), 1);
    check(look2(&t, b, deep, false) == Some(1002), 2);
    check(b == a || look2(&t, a, deep, false) == Some(1001), 3);
    for i in 1..=n {
        check(b == i << 8 || look2(&t, i << 8, deep, false) == Some(i), 4);
    }
    check(t.len() as u64 == n + 2 * deep as u64 + 1 + old(b).is_none() as u64, 5);
    cover(1);
}

/// A leaf of long keys splits and the slots it gave away are taken again, while a reader may still see the old
/// order of the leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_reuse() {
    let t = long_leaf();
    let by_ref = pick(2) == 1;
    let q = [long(0x204, 0), long(0x204, 1), long(0xd00, 0), long(0x203, 0), long(0xf00, 0)][part(5) as usize];
    let mut got = None;
    run2(
        WEAK,
        &mut || {
            for j in 0..3 {
                let r = t.insert(&long(0x202 + j, 0), 70 + j);
                check(matches!(r, Ok(None)), 1);
            }
        },
        &mut || {
            got = rd(&t, &q, by_ref);
        },
    );
    match part(5) {
        0 => check(got.is_none() || got == Some(72), 2),
        1 => check(got.is_none(), 3),
        2 => check(got == Some(13), 4),
        3 => check(got.is_none() || got == Some(71), 5),
        _ => check(got == Some(15), 6),
    }
    cover(1);
}

/// The suffix storage of a leaf grows and is replaced while a reader compares a suffix in it.
#[unsafe(no_mangle)]
pub extern "C" fn h_wm_bag() {
    suffix_race(WEAK);
}
