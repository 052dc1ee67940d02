//! Reader against writer (every interleaving, symbolic time), writer against writer (bounded preemptions).
use crate::*;
use masstree::MassTree24Inline;

type TI = MassTree24Inline<u64>;

/// The two lookups (by value, by reference) are separate code.
fn rd(t: &TI, k: &[u8], by_ref: bool) -> Option<u64> {
    let g = t.guard();
    rdg(t, k, by_ref, &g)
}
fn rdg(t: &TI, k: &[u8], by_ref: bool, g: &seize::LocalGuard<'_>) -> Option<u64> {
    if by_ref { t.get_ref(k, g).copied() } else { t.get_with_guard(k, g) }
}

/// A reader of a present key while the writer inserts a key with the same first 8 bytes (layer creation).
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_layer() {
    balanced(|| {
        let t: TI = TI::new();
        let a = *b"prefix00A";
        let _ = t.insert(&a, 41);
        let sfx: [u8; 1] = any_bytes();
        let mut b = *b"prefix00B";
        b[8] = sfx[0];
        assume(b[8] != b'A');
        let by_ref = pick(2) == 1;
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = t.insert(&b, 77);
                check(matches!(r, Ok(None)), 1);
            },
            &mut || {
                got = rd(&t, &a, by_ref);
            },
        );
        check(got == Some(41), 2);
        check(t.get(&b) == Some(77), 3);
        cover(1);
    });
}

fn be(i: u64) -> [u8; 8] {
    i.to_be_bytes()
}

/// Reader of any present key while the writer's insert splits the full root leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_split() {
    balanced(|| {
        let t: TI = TI::new();
        for i in 1..=24u64 {
            let _ = t.insert(&be(i << 8), i);
        }
        let w = (pick(25) << 8) + 1;
        let k = any_below(24) + 1;
        let by_ref = pick(2) == 1;
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = t.insert(&be(w), 77);
                check(matches!(r, Ok(None)), 1);
            },
            &mut || {
                got = rd(&t, &be(k << 8), by_ref);
            },
        );
        check(got == Some(k), 2);
        cover(1);
    });
}

/// Two splits of the same leaf while a reader that routed through the old tree looks for a moved key.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_split2() {
    balanced(|| {
        let t: TI = TI::new();
        for i in 1..=24u64 {
            let _ = t.insert(&be(i << 8), i);
        }
        let mut got = None;
        let by_ref = pick(2) == 1;
        let k = [1u64, 12, 13, 24][pick(4) as usize];
        run2(
            0,
            &mut || {
                for j in 0..13u64 {
                    let _ = t.insert(&be((j << 8) + 1), 77);
                }
            },
            &mut || {
                got = rd(&t, &be(k << 8), by_ref);
            },
        );
        check(got == Some(k), 2);
        cover(1);
    });
}

use crate::seq::order;
use masstree::MassTree24;

/// Blocks the next inserts allocate tell where the tree grows: insert keys in order `p` until the following
/// insert would allocate at least `want` blocks (a twin tree goes one step ahead). `pre` keeps the keys below
/// one 8-byte prefix. Returns the tree and the number of keys.
pub fn grown(p: u64, min: u64, n: u64, want: u64, deep: bool) -> (TI, u64) {
    let twin = TI::new();
    let t = TI::new();
    let mut i = 0;
    while i < n {
        let x = (order(p, i, n) + 1) << 8;
        let b = live();
        let _ = put(&twin, x, x, deep);
        if i >= min && live() - b >= want {
            break;
        }
        let _ = put(&t, x, x, deep);
        i += 1;
    }
    (t, i)
}
fn key16(x: u64) -> [u8; 16] {
    let mut k = *b"samepfx!________";
    k[8..].copy_from_slice(&x.to_be_bytes());
    k
}
pub fn put(t: &TI, x: u64, v: u64, deep: bool) -> Result<Option<u64>, ()> {
    let k = key16(x);
    t.insert(if deep { &k } else { &k[8..] }, v).map_err(|_| ())
}
fn look(t: &TI, x: u64, deep: bool) -> Option<u64> {
    look2(t, x, deep, false)
}
pub fn look2(t: &TI, x: u64, deep: bool, by_ref: bool) -> Option<u64> {
    let k = key16(x);
    rd(t, if deep { &k } else { &k[8..] }, by_ref)
}

/// A reader of any key while a writer inserts or updates any key in a small leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_insert() {
    let base = live();
    {
        let n = part(4);
        let t: TI = TI::new();
        for i in 1..=n {
            let _ = t.insert(&be(i << 8), i);
        }
        let (w, q) = (any_u64(), any_u64());
        let old = |x: u64| if x & 0xff == 0 && x >> 8 >= 1 && x >> 8 <= n { Some(x >> 8) } else { None };
        let by_ref = pick(2) == 1;
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = t.insert(&be(w), 77);
                check(matches!(r, Ok(o) if o == old(w)), 1);
            },
            &mut || {
                got = rd(&t, &be(q), by_ref);
            },
        );
        if q == w {
            check(got == old(q) || got == Some(77), 2);
            if got == Some(77) { cover(1) } else { cover(2) }
        } else {
            check(got == old(q), 3);
            cover(3);
        }
        check(t.get(&be(w)) == Some(77), 4);
    }
    check(live() == base, 5);
}

/// The same with keys of different lengths: short keys, suffixes, one layer; the writer may build layers.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_shapes() {
    balanced(|| {
        let t: TI = TI::new();
        const L: [usize; 5] = [0, 3, 8, 9, 17];
        let p = part(25) as usize;
        let a: [u8; 17] = any_bytes();
        let b: [u8; 17] = any_bytes();
        let q: [u8; 17] = any_bytes();
        let (a, b, q) = (&a[..L[p % 5]], &b[..L[p / 5]], &q[..L[pick(5) as usize]]);
        check(matches!(t.insert(a, 1), Ok(None)), 1);
        let ab = same(a, b);
        let by_ref = pick(2) == 1;
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = t.insert(b, 2);
                check(matches!(r, Ok(o) if o.is_some() == ab), 2);
            },
            &mut || {
                got = rd(&t, q, by_ref);
            },
        );
        if same(q, b) {
            let old = if ab { Some(1) } else { None };
            check(got == Some(2) || got == old, 3);
            cover(1);
        } else if same(q, a) {
            check(got == Some(1), 4);
            cover(2);
        } else {
            check(got.is_none(), 5);
            cover(3);
        }
    });
}

/// A reader of any key during inserts below a shared prefix: the layer exists already, or splits.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_sublayer() {
    balanced(|| {
        let t: TI = TI::new();
        let p = part(4);
        let by_ref = p >= 2;
        let n = [2u64, 24][p as usize & 1];
        for i in 1..=n {
            let _ = put(&t, i << 8, i, true);
        }
        let w = (pick(n + 1) << 8) + 1;
        let q = any_u64();
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = put(&t, w, 77, true);
                check(matches!(r, Ok(None)), 1);
            },
            &mut || got = look2(&t, q, true, by_ref),
        );
        if q == w {
            check(got.is_none() || got == Some(77), 2);
            cover(1);
        } else if q & 0xff == 0 && q >> 8 >= 1 && q >> 8 <= n {
            check(got == Some(q >> 8), 3);
            cover(2);
        } else {
            check(got.is_none(), 4);
            cover(3);
        }
    });
}

/// Updates: a reader that reads twice sees the values in the order they were stored.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_update() {
    balanced(|| {
        let t: TI = TI::new();
        let shape = part(4);
        // alone, among others, with a suffix, in a layer
        let kb = *b"updkey00tailtail";
        let k = match shape {
            0 | 1 => &kb[..8],
            _ => &kb[..13],
        };
        if shape == 1 {
            for i in 1..=5u64 {
                let _ = t.insert(&be(i << 8), i);
            }
        }
        if shape == 3 {
            let _ = t.insert(b"updkey00tail2", 5);
        }
        let v: [u64; 3] = [any_u64(), any_u64(), any_u64()];
        assume(v[0] != v[1] && v[1] != v[2] && v[0] != v[2]);
        let _ = t.insert(k, v[0]);
        let (by_ref, by_ref2) = (pick(2) == 1, pick(2) == 1);
        let (mut r1, mut r2) = (None, None);
        run2(
            0,
            &mut || {
                for i in 1..3 {
                    let r = t.insert(k, v[i]);
                    check(matches!(r, Ok(Some(o)) if o == v[i - 1]), 1);
                }
            },
            &mut || {
                let g = t.guard();
                r1 = rdg(&t, k, by_ref, &g);
                r2 = rdg(&t, k, by_ref2, &g);
            },
        );
        let rank = |r: Option<u64>| match r {
            Some(x) if x == v[0] => 1,
            Some(x) if x == v[1] => 2,
            Some(x) if x == v[2] => 3,
            _ => 0,
        };
        let (a, b) = (rank(r1), rank(r2));
        check(a > 0 && b > 0, 2);
        check(a <= b, 3);
        if a < b {
            cover(1);
        }
        if a == 3 {
            cover(2);
        }
    });
}

/// References and shared values read under a guard while the writer replaces the value and the guard is held.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_ref() {
    let base = live();
    {
        let t: MassTree24<u64> = MassTree24::new();
        let kb = *b"updkey00tail";
        // a plain key, one with a suffix; then another insert first makes a layer of it, or splits its leaf
        let p = part(4);
        let k = if p & 1 == 0 { &kb[..] } else { &kb[..8] };
        let (a, b, c) = (any_u64(), any_u64(), any_u64());
        let _ = t.insert(k, a);
        if p == 3 {
            for i in 1..24u64 {
                let _ = t.insert(&be(i << 8), i);
            }
        }
        let mut ok = false;
        let mut keep = None;
        run2(
            0,
            &mut || {
                if p >= 2 {
                    let r = t.insert(if p == 2 { b"updkey00taiL" } else { b"zzzzzzzz" }, 9);
                    check(matches!(r, Ok(None)), 7);
                }
                let r = t.insert(k, b);
                check(matches!(r, Ok(Some(o)) if *o == a), 1);
                let r = t.insert(k, c);
                check(matches!(r, Ok(Some(o)) if *o == b), 2);
            },
            &mut || {
                let g = t.guard();
                let r = t.get_ref(k, &g);
                let x = r.copied();
                keep = t.get_with_guard(k, &g);
                let y = r.copied();
                ok = x == y && x.is_some_and(|x| x == a || x == b || x == c);
            },
        );
        check(ok, 3);
        check(keep.as_ref().is_some_and(|v| **v == a || **v == b || **v == c), 4);
        if keep.is_some_and(|v| *v == c && c != b && c != a) {
            cover(1);
        }
        check(t.get(k).is_some_and(|x| *x == c), 5);
        cover(2);
    }
    check(live() == base, 6);
}

/// Two fresh keys inserted one after the other: a reader that sees the second sees the first afterwards.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_order() {
    balanced(|| {
        let t: TI = TI::new();
        let shape = part(4);
        let n = [0u64, 3, 23, 24][shape as usize];
        for i in 1..=n {
            let _ = t.insert(&be(i << 8), i);
        }
        let w1 = (pick(3) * 12 << 8) + 1;
        let w2 = (pick(3) * 12 << 8) + 2;
        let by_ref = pick(2) == 1;
        let (mut r2, mut r1) = (None, None);
        run2(
            0,
            &mut || {
                let _ = t.insert(&be(w1), 101);
                let _ = t.insert(&be(w2), 102);
            },
            &mut || {
                r2 = rd(&t, &be(w2), by_ref);
                r1 = rd(&t, &be(w1), by_ref);
            },
        );
        check(r2.is_none() || r2 == Some(102), 1);
        check(r1.is_none() || r1 == Some(101), 2);
        check(r2.is_none() || r1.is_some(), 3);
        if r2.is_some() {
            cover(1);
        } else if r1.is_some() {
            cover(2);
        }
    });
}

/// A reader of any present key while an insert splits a leaf below an internode, and that internode when
/// it is full (the root, or one below the root), in the main tree and below a shared prefix.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_inode() {
    let p = part(16);
    let by_ref = p >= 8;
    let p = p & 7;
    let deep = p & 1 == 1;
    let (t, i) = match p / 2 {
        0 => grown(1, 30, 400, 2, deep),
        1 => grown(0, 100, 400, 3, deep),
        2 => grown(2, 100, 400, 3, deep),
        _ => grown(0, 300, 700, 3, deep),
    };
    let n = [400u64, 400, 400, 700][(p / 2) as usize];
    let o = [1u64, 0, 2, 0][(p / 2) as usize];
    check(i < n, 1);
    let w = (order(o, i, n) + 1) << 8;
    let k = any_u64();
    // present before the writer starts
    let mut present = false;
    for j in 0..i {
        present |= k == (order(o, j, n) + 1) << 8;
    }
    assume(present);
    let b = live();
    let mut got = None;
    run2(
        0,
        &mut || {
            let r = put(&t, w, 77, deep);
            check(matches!(r, Ok(None)), 2);
        },
        &mut || got = look2(&t, k, deep, by_ref),
    );
    check(live() - b >= 2, 3);
    check(got == Some(k), 4);
    check(look(&t, w, deep) == Some(77), 5);
    cover(1);
}

/// Outcome of two concurrent inserts of keys a and b into a map that held `oa` and `ob` under them.
fn two(same_key: bool, ra: Option<u64>, rb: Option<u64>, oa: Option<u64>, ob: Option<u64>, fa: Option<u64>, fb: Option<u64>) {
    if same_key {
        let a_first = ra == oa && rb == Some(1001) && fa == Some(1002);
        let b_first = rb == oa && ra == Some(1002) && fa == Some(1001);
        check(a_first || b_first, 10);
        cover(2);
    } else {
        check(ra == oa && rb == ob, 11);
        check(fa == Some(1001) && fb == Some(1002), 12);
        cover(1);
    }
}

/// Two writers, any 8-byte keys, small leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_leaf() {
    balanced(|| {
        let n = part(3);
        let t: TI = TI::new();
        for i in 1..=n {
            let _ = t.insert(&be(i << 8), i);
        }
        let (a, b) = (any_u64(), any_u64());
        let old = |x: u64| if x & 0xff == 0 && x >> 8 >= 1 && x >> 8 <= n { Some(x >> 8) } else { None };
        let (mut ra, mut rb) = (None, None);
        let mut own = None;
        run2(
            2,
            &mut || {
                ra = t.insert(&be(a), 1001).ok();
                own = t.get(&be(a));
            },
            &mut || rb = t.insert(&be(b), 1002).ok(),
        );
        check(ra.is_some() && rb.is_some(), 1);
        check(own == Some(1001) || (a == b && own == Some(1002)), 2);
        two(a == b, ra.flatten(), rb.flatten(), old(a), old(b), t.get(&be(a)), t.get(&be(b)));
        for i in 1..=n {
            let x = i << 8;
            check(x == a || x == b || t.get(&be(x)) == Some(i), 3);
        }
        let fresh = old(a).is_none() as usize + (old(b).is_none() && a != b) as usize;
        check(t.len() == n as usize + fresh, 4);
    });
}

/// Two writers whose keys have any of several lengths and any bytes, one key present: layers and suffixes.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_shapes() {
    balanced(|| {
        const L: [usize; 4] = [3, 8, 9, 17];
        let p = part(16) as usize;
        let t: TI = TI::new();
        let o: [u8; 17] = [0x41; 17];
        let mut a = o;
        let mut b = o;
        // the first slice agrees with the present key or not as a whole; what follows is free
        fill(&mut a[7..]);
        fill(&mut b[7..]);
        let o = &o[..L[pick(4) as usize]];
        let (a, b) = (&a[..L[p % 4]], &b[..L[p / 4]]);
        let _ = t.insert(o, 5);
        let (mut ra, mut rb) = (None, None);
        run2(
            2,
            &mut || ra = t.insert(a, 1001).ok(),
            &mut || rb = t.insert(b, 1002).ok(),
        );
        check(ra.is_some() && rb.is_some(), 1);
        let old = |x: &[u8]| if same(x, o) { Some(5) } else { None };
        let ab = same(a, b);
        two(ab, ra.flatten(), rb.flatten(), old(a), old(b), t.get(a), t.get(b));
        check(same(a, o) || same(b, o) || t.get(o) == Some(5), 2);
        let fresh = !same(a, o) as usize + (!same(b, o) && !ab) as usize;
        check(t.len() == 1 + fresh, 3);
    });
}

/// A tree whose next insert splits a full leaf: the root, below an internode, below a full root internode; keys
/// in ascending, descending or mixed order. Returns the tree, the order and how many keys it holds.
fn about_to_split(p: u64, deep: bool) -> (TI, u64, u64, u64) {
    match p {
        0 => {
            let (t, i) = grown(0, 24, 25, 1, deep);
            (t, 25, 0, i)
        }
        1 => {
            let (t, i) = grown(1, 30, 400, 2, deep);
            (t, 400, 1, i)
        }
        2 => {
            let (t, i) = grown(0, 100, 400, 3, deep);
            (t, 400, 0, i)
        }
        _ => {
            let (t, i) = grown(2, 100, 400, 3, deep);
            (t, 400, 2, i)
        }
    }
}

/// Two writers into a full leaf (root, below an internode, below a shared prefix): both split or one retries.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_split() {
    let base = live();
    {
        let p = part(8);
        let deep = p & 1 == 1;
        let (t, n, o, i) = about_to_split(p / 2, deep);
        let a = (order(o, i, n) + 1) << 8;
        let b = match pick(3) {
            0 => a + 1,
            1 => a - 1,
            _ => (order(o, i / 2, n) + 1 << 8) + 1,
        };
        let (mut ra, mut rb) = (None, None);
        run2(
            2,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || rb = put(&t, b, 1002, deep).ok(),
        );
        check(ra == Some(None) && rb == Some(None), 1);
        for j in 0..i {
            let x = (order(o, j, n) + 1) << 8;
            check(look(&t, x, deep) == Some(x), 2);
        }
        check(look(&t, a, deep) == Some(1001) && look(&t, b, deep) == Some(1002), 3);
        check(t.len() as u64 == i + 2, 4);
        cover(1);
    }
    check(live() == base, 5);
}

/// One insert that splits a full leaf; at any one point of it another thread makes 26 or 250 inserts just above
/// or just below the same key or below all keys, enough to split either half again, or the inner node above.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_many() {
    balanced(|| {
        let p = part(16);
        let deep = p & 1 == 1;
        let (t, n, o, i) = about_to_split(p / 2 % 4, deep);
        let m: u64 = if p < 8 { 26 } else { 250 };
        let a = (order(o, i, n) + 1) << 8;
        let at = pick(3);
        let b = |j: u64| match at {
            0 => a - 1 - j,
            1 => a + 1 + j,
            _ => 1 + j,
        };
        let mut ra = None;
        run2(
            1 | 256,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || {
                for j in 0..m {
                    check(matches!(put(&t, b(j), j, deep), Ok(None)), 1);
                }
            },
        );
        check(ra == Some(None), 2);
        for j in 0..i {
            let x = (order(o, j, n) + 1) << 8;
            check(look(&t, x, deep) == Some(x), 3);
        }
        for j in 0..m {
            check(look(&t, b(j), deep) == Some(j), 4);
        }
        check(look(&t, a, deep) == Some(1001), 5);
        check(t.len() as u64 == i + 1 + m, 6);
        cover(1);
    });
}

/// A lookup; at any one point of it a writer makes 26 or 250 inserts just above or just below the same key or below
/// all keys, so that the reader's leaf, and the inner node above, split many times under it.
fn rw_many(m: u64) {
    balanced(|| {
        let p = part(8);
        let deep = p & 1 == 1;
        let (t, n, o, i) = about_to_split(p / 2, deep);
        let a = (order(o, i - 1, n) + 1) << 8;
        let at = pick(3);
        let b = |j: u64| match at {
            0 => a - 1 - j,
            1 => a + 1 + j,
            _ => 1 + j,
        };
        let by_ref = pick(2) == 1;
        let absent = pick(2) == 1;
        let x = if absent { a - 253 } else { a };
        let mut got = None;
        run2(
            1 | 256,
            &mut || got = look2(&t, x, deep, by_ref),
            &mut || {
                for j in 0..m {
                    check(matches!(put(&t, b(j), j, deep), Ok(None)), 1);
                }
            },
        );
        check(got == if absent { None } else { Some(a) }, 2);
        for j in 0..m {
            check(look(&t, b(j), deep) == Some(j), 3);
        }
        cover(1);
    });
}

#[unsafe(no_mangle)]
pub extern "C" fn h_rw_many() {
    rw_many(26);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_rw_more() {
    rw_many(250);
}

/// Two writers at a full leaf whose split leaves a known boundary: one splits, the other brings a key with the
/// first slice of the boundary entry, or of a neighbour, and another length.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_bound() {
    balanced(|| {
        let p = part(6) as usize;
        let deep = p & 1 == 1;
        let t = TI::new();
        for i in 1..=24u64 {
            let _ = put(&t, i << 8, i, deep);
        }
        let a = [(30u64 << 8), 1, (12 << 8) + 1][pick(3) as usize];
        // the full leaf splits between the 12th and the 13th entry
        let slice = (11 + pick(4)) << 8;
        let mut k = *b"samepfx!__________";
        k[8..16].copy_from_slice(&be(slice));
        k[16] = any_u64() as u8;
        let n = [15usize, 17, 18][p / 2];
        let k = &k[if deep { 0 } else { 8 }..n];
        let (mut ra, mut rb) = (None, None);
        run2(
            2,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || rb = t.insert(k, 1002).ok(),
        );
        check(ra == Some(None) && rb == Some(None), 1);
        for i in 1..=24u64 {
            check(look(&t, i << 8, deep) == Some(i), 2);
        }
        check(look(&t, a, deep) == Some(1001) && t.get(k) == Some(1002), 3);
        check(t.len() == 26, 4);
        cover(1);
    });
}

/// One insert beyond all present keys while another thread, at any one point of it, splits the same leaf so often
/// that the first has more siblings to walk over than its hop limit.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_hops() {
    balanced(|| {
        let deep = part(2) == 1;
        let t = TI::new();
        const N: u64 = 1620;
        for i in 1..=2u64 {
            let _ = put(&t, i, i, deep);
        }
        // beyond everything the other thread inserts
        let a = any_u64();
        assume(a > N + 2);
        let mut ra = None;
        run2(
            1 | 256,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || {
                for i in 0..N {
                    let x = N + 2 - i;
                    let r = put(&t, x, x, deep);
                    check(matches!(r, Ok(None)), 1);
                }
            },
        );
        check(ra == Some(None), 2);
        check(look(&t, a, deep) == Some(1001), 3);
        check(t.len() as u64 == N + 3, 4);
        // nothing appears under a key nobody inserted
        check(!deep || look(&t, a, false).is_none(), 5);
        cover(1);
    });
}

// ---------------------------------------------------------------- two writers and a reader

/// Two writers of any 8-byte keys in a small leaf, one reader of any key.
#[unsafe(no_mangle)]
pub extern "C" fn h_rww_leaf() {
    balanced(|| {
        let p = part(4);
        let (n, by_ref) = (p & 1, p >= 2);
        let t: TI = TI::new();
        for i in 1..=n {
            let _ = t.insert(&be(i << 8), i);
        }
        let (a, b, q) = (any_u64(), any_u64(), any_u64());
        let old = |x: u64| if x & 0xff == 0 && x >> 8 >= 1 && x >> 8 <= n { Some(x >> 8) } else { None };
        let (mut ra, mut rb, mut got) = (None, None, None);
        run3(
            1,
            &mut || ra = t.insert(&be(a), 1001).ok(),
            &mut || rb = t.insert(&be(b), 1002).ok(),
            &mut || got = rd(&t, &be(q), by_ref),
        );
        check(ra.is_some() && rb.is_some(), 1);
        if q == a || q == b {
            check(got == old(q) || q == a && got == Some(1001) || q == b && got == Some(1002), 2);
            cover(1);
        } else {
            check(got == old(q), 3);
            cover(2);
        }
    });
}

/// Two writers that meet at a full leaf, one reader of any key that was there before.
#[unsafe(no_mangle)]
pub extern "C" fn h_rww_split() {
    balanced(|| {
        let p = part(6);
        let (deep, by_ref) = (p & 1 == 1, p >= 3);
        let t = TI::new();
        for i in 1..=24u64 {
            let _ = put(&t, i << 8, i, deep);
        }
        let (a, b) = [((30u64 << 8), 1), (1, 2), ((12 << 8) + 1, (13 << 8) + 1)][(p % 3) as usize];
        let k = [1u64, 12, 13, 14, 24][pick(5) as usize];
        let (mut ra, mut rb, mut got) = (None, None, None);
        run3(
            1,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || rb = put(&t, b, 1002, deep).ok(),
            &mut || got = look2(&t, k << 8, deep, by_ref),
        );
        check(ra == Some(None) && rb == Some(None), 1);
        check(got == Some(k), 2);
        cover(1);
    });
}

/// A writer splits a full leaf; at any one of its stores another makes 14 inserts that split one of the halves again;
/// one reader of any key that was there before.
#[unsafe(no_mangle)]
pub extern "C" fn h_rww_many() {
    balanced(|| {
        let p = part(8);
        let (deep, by_ref, low) = (p & 1 == 1, p & 2 == 2, p & 4 == 4);
        let t = TI::new();
        for i in 1..=24u64 {
            let _ = put(&t, i << 8, i, deep);
        }
        let a = if low { 1 } else { 30 << 8 };
        let b = if low { 3 << 8 } else { 22 << 8 };
        let k = [1u64, 4, 12, 13, 22, 24][pick(6) as usize];
        let (mut ra, mut got) = (None, None);
        run3(
            1 | 256,
            &mut || ra = put(&t, a, 1001, deep).ok(),
            &mut || {
                for j in 1..=14 {
                    let _ = put(&t, b + j, 1002, deep);
                }
            },
            &mut || got = look2(&t, k << 8, deep, by_ref),
        );
        check(ra == Some(None), 1);
        check(got == Some(k), 2);
        cover(1);
    });
}

/// Two writers of keys that share the first slice of a present key (each may have to make the layer), one reader
/// of the present key or of theirs.
#[unsafe(no_mangle)]
pub extern "C" fn h_rww_layer() {
    balanced(|| {
        let by_ref = part(2) == 1;
        let t: TI = TI::new();
        let k = *b"prefix00A";
        let _ = t.insert(&k, 41);
        let (mut a, mut b) = (*b"prefix00B", *b"prefix00C");
        let c = any_u64() as u8;
        assume(c != b'A');
        a[8] = c;
        let lb = [8usize, 9][pick(2) as usize];
        let b = &mut b[..lb];
        let who = pick(2);
        let (mut ra, mut rb, mut got) = (None, None, None);
        run3(
            1,
            &mut || ra = t.insert(&a, 1001).ok(),
            &mut || rb = t.insert(b, 1002).ok(),
            &mut || got = if who == 0 { rd(&t, &k, by_ref) } else { rd(&t, &a, by_ref) },
        );
        let ab = same(&a, b);
        check(ra.is_some() && rb.is_some(), 1);
        if who == 0 {
            check(got == Some(41), 2);
            cover(1);
        } else {
            check(got.is_none() || got == Some(1001) || ab && got == Some(1002), 3);
            cover(2);
        }
    });
}

/// Two writers update one key, the reader reads it twice: it sees the values in the order they were stored.
#[unsafe(no_mangle)]
pub extern "C" fn h_rww_update() {
    balanced(|| {
        let t: TI = TI::new();
        let p = part(3);
        let kb = *b"updkey00tailtail";
        let k = if p == 0 { &kb[..8] } else { &kb[..13] };
        if p == 2 {
            let _ = t.insert(b"updkey00tail2", 5);
        }
        let _ = t.insert(k, 1);
        let (by_ref, by_ref2) = (pick(2) == 1, pick(2) == 1);
        let (mut ra, mut rb, mut r1, mut r2) = (None, None, None, None);
        run3(
            1,
            &mut || ra = t.insert(k, 1001).ok(),
            &mut || rb = t.insert(k, 1002).ok(),
            &mut || {
                let g = t.guard();
                r1 = rdg(&t, k, by_ref, &g);
                r2 = rdg(&t, k, by_ref2, &g);
            },
        );
        let a_first = ra == Some(Some(1)) && rb == Some(Some(1001));
        let b_first = rb == Some(Some(1)) && ra == Some(Some(1002));
        check(a_first != b_first, 1);
        let rank = |r: Option<u64>| match r {
            Some(1) => 1,
            Some(1001) => if a_first { 2 } else { 3 },
            Some(1002) => if a_first { 3 } else { 2 },
            _ => 0,
        };
        let (x, y) = (rank(r1), rank(r2));
        check(x > 0 && x <= y, 2);
        if x < y {
            cover(1);
        }
        check(rank(t.get(k)) == 3, 3);
    });
}

/// A reader of length and emptiness races one insert: into an empty map, into a root leaf, a full root leaf
/// (the root grows), a key that turns into a layer, a full inner root.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_empty() {
    balanced(|| {
        let kind = part(5);
        let (t, n) = match kind {
            0 => (TI::new(), 0usize),
            1 | 3 => {
                let t = TI::new();
                let _ = t.insert(b"prefix00A", 41);
                (t, 1)
            }
            2 => {
                let t = TI::new();
                for i in 1..=24u64 {
                    let _ = t.insert(&be(i << 8), i);
                }
                (t, 24)
            }
            _ => {
                let (t, n) = grown(0, 100, 400, 3, false);
                (t, n as usize)
            }
        };
        let w: &[u8] = match kind {
            0 => b"first key",
            1 => b"other",
            3 => b"prefix00B",
            2 => &be((pick(25) << 8) + 1),
            _ => &be((n as u64 + 1) << 8),
        };
        let (mut l1, mut l2, mut e1, mut e2) = (0, 0, false, false);
        let mut got = None;
        run2(
            0,
            &mut || {
                let r = t.insert(w, 77);
                check(matches!(r, Ok(None)), 1);
            },
            &mut || {
                e1 = t.is_empty();
                l1 = t.len();
                got = t.get(w);
                e2 = t.is_empty();
                l2 = t.len();
            },
        );
        check(n <= l1 && l1 <= l2 && l2 <= n + 1, 2);
        if n > 0 {
            check(!e1 && !e2, 3);
            cover(1);
        } else {
            // a reader that found the key does not call the map empty afterwards
            check((e1 || !e2) && (got.is_none() || !e2) && (l1 == 0 || !e2), 4);
            cover(2);
        }
        check(t.len() == n + 1 && !t.is_empty() && t.get(w) == Some(77), 5);
    });
}

/// Twenty-four long keys with different first eight bytes fill a leaf.
pub fn long_leaf() -> TI {
    let t: TI = TI::new();
    for i in 1..=24u64 {
        let _ = t.insert(&long(i << 8, 0), i);
    }
    t
}
/// A key of twelve bytes: `x` in the first eight.
pub fn long(x: u64, tail: u8) -> [u8; 12] {
    let mut k = *b"________tail";
    k[..8].copy_from_slice(&be(x));
    k[11] = b'l' + tail;
    k
}

/// A leaf of long keys splits and the slots it gave away are taken again, while a reader still holds the old
/// order of the leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_reuse() {
    balanced(|| {
        let t = long_leaf();
        let by_ref = pick(2) == 1;
        let m = pick(3);
        let q = [long(0x204, 0), long(0x204, 1), long(0xd00, 0), long(0x203, 0), long(0xf00, 0)][part(5) as usize];
        let mut got = None;
        run2(
            0,
            &mut || {
                for j in 0..2 + m {
                    let r = t.insert(&long(0x202 + j, 0), 70 + j);
                    check(matches!(r, Ok(None)), 1);
                }
            },
            &mut || {
                got = rd(&t, &q, by_ref);
            },
        );
        match part(5) {
            0 => check(got.is_none() || got == Some(72) && m >= 1, 2),
            1 => check(got.is_none(), 3),
            2 => check(got == Some(13), 4),
            3 => check(got.is_none() || got == Some(71), 5),
            _ => check(got == Some(15), 6),
        }
        cover(1);
    });
}

/// The suffix storage of a leaf grows and is replaced while a reader compares a suffix in it. Suffixes of up to
/// 120 bytes; their last byte is any.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_bag() {
    balanced(|| suffix_race(0));
}
pub fn suffix_race(mode: u64) {
    let t: TI = TI::new();
    let p = part(4) as usize;
    let len = |i: u64| [128, 58, 20, 13][p] - i as usize;
    let z: [u8; 1] = any_bytes();
    let mut keys = [[b's'; 128]; 5];
    for i in 0..5u64 {
        keys[i as usize][..8].copy_from_slice(&be((i + 1) << 8));
        keys[i as usize][len(i) - 1] = z[0];
    }
    let n = if p == 2 { 4 } else { 1 };
    for i in 0..n {
        check(matches!(t.insert(&keys[i as usize][..len(i)], i), Ok(None)), 1);
    }
    let by_ref = pick(2) == 1;
    let q = pick(5);
    let y: [u8; 1] = any_bytes();
    let mut k = keys[q as usize];
    k[len(q) - 1] = y[0];
    let mut got = None;
    run2(
        mode,
        &mut || {
            for i in n..5 {
                check(matches!(t.insert(&keys[i as usize][..len(i)], i), Ok(None)), 2);
            }
        },
        &mut || {
            got = rd(&t, &k[..len(q)], by_ref);
        },
    );
    check(got == Some(q) || got.is_none(), 3);
    check(got.is_none() || y[0] == z[0], 4);
    check(got.is_some() || y[0] != z[0] || q >= n, 5);
    if got.is_some() {
        cover(1);
    } else {
        cover(2);
    }
    for i in 0..5u64 {
        check(t.get(&keys[i as usize][..len(i)]) == Some(i), 6);
    }
}
