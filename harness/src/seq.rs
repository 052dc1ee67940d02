//! One thread: the map must behave like a map for every key and value.
use crate::*;
use masstree::{MassTree24, MassTree24Inline, MassTreeIndex};
pub type TI = MassTree24Inline<u64>;

/// `n` keys of `len` bytes, big-endian multiples of `gap` starting at `gap`.
pub fn key_be(i: u64) -> [u8; 8] {
    i.to_be_bytes()
}

/// Full leaf of 8-byte keys, one more symbolic key anywhere: split, then every key is still there.
#[unsafe(no_mangle)]
pub extern "C" fn h_split_any() {
    let t = TI::new();
    for i in 1..=24u64 {
        check(matches!(t.insert(&key_be(i << 32), i), Ok(None)), 1);
    }
    let k: [u8; 8] = any_bytes();
    let r = t.insert(&k, 1000);
    let q: [u8; 8] = any_bytes();
    let g = t.get(&q);
    let n = u64::from_be_bytes(q);
    if q == k {
        check(g == Some(1000), 2);
        cover(1);
    } else if n & 0xffff_ffff == 0 && (n >> 32) >= 1 && (n >> 32) <= 24 {
        check(g == Some(n >> 32), 3);
        cover(2);
    } else {
        check(g.is_none(), 4);
        cover(3);
    }
    let kn = u64::from_be_bytes(k);
    let dup = kn & 0xffff_ffff == 0 && (kn >> 32) >= 1 && (kn >> 32) <= 24;
    match r {
        Ok(None) => check(!dup, 5),
        Ok(Some(o)) => check(dup && o == kn >> 32, 6),
        Err(_) => check(false, 7),
    }
    check(t.len() == if dup { 24 } else { 25 }, 8);
}

/// Three symbolic keys of any length up to 17 in an empty tree.
#[unsafe(no_mangle)]
pub extern "C" fn h_map3() {
    const LENS: [usize; 8] = [0, 1, 7, 8, 9, 10, 16, 17];
    let t = TI::new();
    let (a, b, c): ([u8; 17], [u8; 17], [u8; 17]) = (any_bytes(), any_bytes(), any_bytes());
    let a = &a[..LENS[pick(8) as usize]];
    let b = &b[..LENS[pick(8) as usize]];
    let c = &c[..LENS[pick(8) as usize]];
    check(matches!(t.insert(a, 1), Ok(None)), 1);
    let r = t.insert(b, 2);
    let ab = same(a, b);
    match r {
        Ok(None) => check(!ab, 2),
        Ok(Some(v)) => check(ab && v == 1, 3),
        Err(_) => check(false, 4),
    }
    let g = t.get(c);
    if same(c, b) {
        check(g == Some(2), 5);
        cover(1);
    } else if same(c, a) {
        check(g == Some(1), 6);
        cover(2);
    } else {
        check(g.is_none(), 7);
        cover(3);
    }
    check(t.len() == if ab { 1 } else { 2 }, 8);
}

pub const LENS: [usize; 10] = [0, 1, 2, 7, 8, 9, 15, 16, 17, 24];

fn check_get(t: &TI, k: &[u8], want: Option<u64>, id: u64) {
    check(t.get(k) == want, id);
    let g = t.guard();
    check(t.get_ref(k, &g).copied() == want, id);
}

/// Four inserts over four keys of any length (up to two layers deep) and any bytes, then each is looked up,
/// and a fifth key: the answers are those of a map.
#[unsafe(no_mangle)]
pub extern "C" fn h_map4() {
    const L4: [usize; 6] = [0, 3, 8, 9, 16, 18];
    let t = TI::new();
    let p = part(36) as usize;
    let bufs: [[u8; 18]; 4] = [any_bytes(), any_bytes(), any_bytes(), any_bytes()];
    let lens = [L4[p % 6], L4[p / 6], L4[pick(6) as usize], L4[pick(6) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    let mut n = 0;
    for i in 0..3 {
        let r = t.insert(k(i), i as u64);
        let mut prev = None;
        for j in 0..i {
            if same(k(j), k(i)) {
                prev = Some(j as u64);
            }
        }
        if prev.is_none() {
            n += 1;
        } else {
            cover(1);
        }
        check(matches!(r, Ok(o) if o == prev), 1);
        check(t.len() == n && !t.is_empty(), 2);
    }
    let mut want = None;
    for j in 0..3 {
        if same(k(j), k(3)) {
            want = Some(j as u64);
        }
    }
    check_get(&t, k(3), want, 3);
    if want.is_some() {
        cover(2);
    } else {
        cover(3);
    }
}

/// Repeated updates of two keys with any values: every insert returns the value it replaced, the last one
/// is read, the count of entries does not move.
#[unsafe(no_mangle)]
pub extern "C" fn h_updates() {
    let t = TI::new();
    const L: [usize; 5] = [0, 4, 8, 11, 17];
    let bufs: [[u8; 17]; 2] = [any_bytes(), any_bytes()];
    let lens = [L[part(5) as usize], L[pick(5) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    assume(!same(k(0), k(1)));
    let mut model: [Option<u64>; 2] = [None, None];
    check(t.is_empty() && t.len() == 0, 1);
    for _ in 0..5 {
        let i = pick(2) as usize;
        let v = any_u64();
        let r = t.insert(k(i), v);
        check(matches!(r, Ok(o) if o == model[i]), 2);
        if model[i].is_some() {
            cover(1);
        }
        model[i] = Some(v);
        let n = model.iter().flatten().count();
        check(t.len() == n && !t.is_empty(), 3);
    }
    for i in 0..2 {
        check(t.get(k(i)) == model[i], 4);
        let g = t.guard();
        check(t.get_with_guard(k(i), &g) == model[i], 5);
    }
    cover(2);
}

/// A leaf with a run of keys that share their first 8 bytes in every length class, neighbours on either
/// side, and one more insert that splits it.
#[unsafe(no_mangle)]
pub extern "C" fn h_equal_group() {
    let t = TI::new();
    // the group: "mmmm\0\0\0\0" cut at lengths 4..8 (the zero bytes are part of the key) and one longer key
    let mut base = [0u8; 12];
    base[..4].copy_from_slice(b"mmmm");
    let below = part(20);
    let mut n = 0u64;
    let mut ins = |k: &[u8]| {
        n += 1;
        check(matches!(t.insert(k, n), Ok(None)), 1);
    };
    for i in 0..below {
        ins(&key_be((1 + i) << 32));
    }
    for l in 4..=8 {
        ins(&base[..l]);
    }
    ins(&base[..12]);
    let above = 24 - 6 - below.min(18);
    for i in 0..above {
        ins(&key_be(0xff00_0000_0000_0000 + ((1 + i) << 32)));
    }
    let full = n;
    // one more, anywhere
    let k: [u8; 12] = any_bytes();
    let kl = [4usize, 8, 12][pick(3) as usize];
    let k = &k[..kl];
    let r = t.insert(k, 1000);
    let fresh = matches!(r, Ok(None));
    check(r.is_ok(), 2);
    check(t.len() as u64 == full + fresh as u64, 3);
    let mut hit = None;
    let mut i = 0u64;
    let mut look = |q: &[u8]| {
        i += 1;
        let w = if same(q, k) {
            hit = Some(i);
            1000
        } else {
            i
        };
        check(t.get(q) == Some(w), 4);
    };
    for i in 0..below {
        look(&key_be((1 + i) << 32));
    }
    for l in 4..=8 {
        look(&base[..l]);
    }
    look(&base[..12]);
    for i in 0..above {
        look(&key_be(0xff00_0000_0000_0000 + ((1 + i) << 32)));
    }
    check(t.get(k) == Some(1000), 5);
    check(matches!(r, Ok(o) if o == hit), 6);
    if fresh {
        cover(1);
    } else {
        cover(2);
    }
}

/// Orders in which a tree is filled.
pub fn order(p: u64, i: u64, n: u64) -> u64 {
    match p {
        0 => i,
        1 => n - 1 - i,
        2 => (i * 389) % n,
        3 => {
            if i % 2 == 0 {
                i / 2
            } else {
                n - 1 - i / 2
            }
        }
        _ => {
            // middle out
            if i % 2 == 0 {
                n / 2 + i / 2
            } else {
                n / 2 - 1 - i / 2
            }
        }
    }
}

pub fn filled(p: u64, n: u64) -> TI {
    let t = TI::new();
    for i in 0..n {
        let k = order(p, i, n) + 1;
        check(matches!(t.insert(&key_be(k << 8), k), Ok(None)), 1);
    }
    check(t.len() as u64 == n, 2);
    t
}

/// Many inserts in one of five orders grow the tree to three levels of nodes (more of them: four); any key
/// looked up afterwards is found exactly if it was inserted.
#[unsafe(no_mangle)]
pub extern "C" fn h_grow() {
    let p = part(10);
    let n: u64 = if p < 5 { 700 } else { 2900 };
    let t = filled(p % 5, n);
    let q: [u8; 8] = any_bytes();
    let g = t.get(&q);
    let x = u64::from_be_bytes(q);
    if x & 0xff == 0 && (x >> 8) >= 1 && (x >> 8) <= n {
        check(g == Some(x >> 8), 3);
        cover(1);
    } else {
        check(g.is_none(), 4);
        cover(2);
    }
}

/// One insert of any key into a tree with internodes, then every older key and the new one are found.
#[unsafe(no_mangle)]
pub extern "C" fn h_grow_any() {
    let p = part(5);
    // the root internode is full or nearly so
    const N: [u64; 5] = [204, 204, 240, 204, 204];
    let n = N[p as usize];
    let t = filled(p, n);
    let k: [u8; 8] = any_bytes();
    let r = t.insert(&k, 9999);
    let x = u64::from_be_bytes(k);
    let dup = x & 0xff == 0 && (x >> 8) >= 1 && (x >> 8) <= n;
    match r {
        Ok(None) => check(!dup, 3),
        Ok(Some(o)) => check(dup && o == x >> 8, 4),
        Err(_) => check(false, 5),
    }
    if dup {
        cover(1);
    } else {
        cover(2);
    }
    check(t.get(&k) == Some(9999), 6);
    for i in 1..=n {
        let w = t.get(&key_be(i << 8));
        check(w == Some(i) || (dup && x >> 8 == i && w == Some(9999)), 7);
    }
    check(t.len() as u64 == n + !dup as u64, 8);
}

/// Keys with a long common prefix: the prefix is `8 * d` bytes, the rest is any.
#[unsafe(no_mangle)]
pub extern "C" fn h_deep() {
    let d = [1usize, 2, 3, 7, 15, 29][part(6) as usize];
    let t = TI::new();
    let p = 8 * d;
    const T: [usize; 5] = [0, 1, 8, 9, 17];
    let mut bufs = [[0u8; 256]; 3];
    for b in &mut bufs {
        for i in 0..p {
            b[i] = (i * 7 + 1) as u8;
        }
        fill(&mut b[p..p + 17]);
    }
    let lens = [p + T[pick(5) as usize], p + T[pick(5) as usize], p + T[pick(5) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    check(matches!(t.insert(k(0), 1), Ok(None)), 1);
    let dup = same(k(0), k(1));
    let r = t.insert(k(1), 2);
    check(matches!(r, Ok(o) if o == if dup { Some(1) } else { None }), 2);
    check(t.len() == if dup { 1 } else { 2 }, 3);
    check(t.get(k(0)) == Some(if dup { 2 } else { 1 }) && t.get(k(1)) == Some(2), 4);
    let g = t.get(k(2));
    if same(k(2), k(1)) {
        check(g == Some(2), 5);
        cover(1);
    } else if same(k(2), k(0)) {
        check(g == Some(1), 6);
        cover(2);
    } else {
        check(g.is_none(), 7);
        cover(3);
    }
    // the third key once more, as an insert
    let r = t.insert(k(2), 3);
    check(matches!(r, Ok(o) if o == g), 9);
    check(t.get(k(2)) == Some(3), 10);
    check(t.get(k(1)) == Some(if same(k(2), k(1)) { 3 } else { 2 }), 11);
    check(t.get(k(0)) == Some(if same(k(2), k(0)) { 3 } else if dup { 2 } else { 1 }), 12);
    check(t.len() == 1 + !dup as usize + g.is_none() as usize, 13);
    // cut anywhere inside the prefix: not a key
    check(t.get(&bufs[0][..p - 1]).is_none() && t.get(&bufs[0][..p / 2]).is_none() && t.get(b"").is_none(), 8);
}

/// Keys of the longest legal length that differ in one place.
#[unsafe(no_mangle)]
pub extern "C" fn h_longest() {
    let t = TI::new();
    let at = [0usize, 7, 8, 127, 247, 248, 255][part(7) as usize];
    let l = [255usize, 256][pick(2) as usize];
    let mut a = [0x55u8; 256];
    let mut b = [0x55u8; 256];
    a[at] = any_u64() as u8;
    b[at] = any_u64() as u8;
    let b = &b[..l];
    let dup = l == 256 && a[at] == b[at];
    let inb = at < l;
    check(matches!(t.insert(&a, 1), Ok(None)), 1);
    if inb {
        let r = t.insert(b, 2);
        check(matches!(r, Ok(o) if o.is_some() == dup), 2);
        check(t.get(b) == Some(2), 3);
        check(t.get(&a) == Some(if dup { 2 } else { 1 }), 4);
        // once more in either order: both are found as what they are
        check(matches!(t.insert(b, 3), Ok(Some(2))), 5);
        check(matches!(t.insert(&a, 4), Ok(Some(o)) if o == if dup { 3 } else { 1 }), 6);
        check(t.get(&a) == Some(4) && t.get(b) == Some(if dup { 4 } else { 3 }), 7);
        // a third one that leaves both somewhere in the middle
        let mut c = a;
        c[103] = any_u64() as u8;
        c[200] = any_u64() as u8;
        let l = [104usize, 105, 230, 256][pick(4) as usize];
        let c = &c[..l];
        let (ca, cb) = (same(c, &a), same(c, b));
        check(matches!(t.insert(c, 5), Ok(o) if o == if ca { Some(4) } else if cb { Some(3) } else { None }), 8);
        check(t.get(&a) == Some(if ca { 5 } else { 4 }) && t.get(c) == Some(5), 9);
        check(t.get(b) == Some(if cb || dup && ca { 5 } else if dup { 4 } else { 3 }), 10);
        check(t.len() == 1 + !dup as usize + !(ca || cb) as usize, 11);
        if dup { cover(1) } else { cover(2) }
    }
}

/// A layer below one slice holds so many keys that it splits and grows its own root; keys outside stay.
#[unsafe(no_mangle)]
pub extern "C" fn h_layer_grow() {
    let t = TI::new();
    let p = part(9);
    let n: u64 = [30, 30, 230, 900, 900, 900, 2700, 2700, 2700][p as usize];
    // a tail of eight bytes fits in the slot, a longer one is kept in the suffix storage
    let ext = pick(2) as usize * 3;
    let mut k = *b"samepfx!________xyz";
    check(matches!(t.insert(b"samepfx!", 5000), Ok(None)), 1);
    check(matches!(t.insert(b"samepfx", 5001), Ok(None)), 2);
    for i in 0..n {
        let j = order(p % 3, i, n) + 1;
        k[8..16].copy_from_slice(&key_be(j << 8));
        check(matches!(t.insert(&k[..16 + ext], j), Ok(None)), 3);
    }
    check(t.len() as u64 == n + 2, 4);
    let q: [u8; 8] = any_bytes();
    k[8..16].copy_from_slice(&q);
    let g = t.get(&k[..16 + ext]);
    let x = u64::from_be_bytes(q);
    if x & 0xff == 0 && (x >> 8) >= 1 && (x >> 8) <= n {
        check(g == Some(x >> 8), 5);
        cover(1);
    } else {
        check(g.is_none(), 6);
        cover(2);
    }
    check(t.get(b"samepfx!") == Some(5000) && t.get(b"samepfx") == Some(5001), 7);
    check(t.get(&k[..12]).is_none() && t.get(b"samepfx?").is_none() && t.get(&k[..19 - ext]).is_none(), 8);
}

/// A key turns into a layer while other keys with the same slice exist; any tails.
#[unsafe(no_mangle)]
pub extern "C" fn h_layer_mix() {
    let t = TI::new();
    const T: [usize; 4] = [0, 1, 8, 10];
    let mut bufs = [[0x41u8; 18]; 4];
    for b in &mut bufs {
        fill(&mut b[8..]);
    }
    let p = part(16) as usize;
    let lens = [T[p % 4], T[p / 4], T[pick(4) as usize], T[pick(4) as usize]];
    let k = |i: usize| &bufs[i][..8 + lens[i]];
    for i in 0..4 {
        for j in 0..i {
            assume(!same(k(i), k(j)));
        }
        check(matches!(t.insert(k(i), i as u64), Ok(None)), 1);
    }
    check(matches!(t.insert(&bufs[0][..7], 77), Ok(None)), 2);
    for i in 0..4 {
        check(t.get(k(i)) == Some(i as u64), 3);
    }
    check(t.get(&bufs[0][..7]) == Some(77) && t.get(&bufs[0][..6]).is_none(), 4);
    check(t.len() == 5, 5);
    cover(1);
}

/// Keys beyond 256 bytes never enter the tree.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_limit() {
    let t = TI::new();
    let b = [7u8; 300];
    let l = 250 + pick(51) as usize;
    if l <= 256 {
        check(matches!(t.insert(&b[..l], 3), Ok(None)), 1);
        check(t.get(&b[..l]) == Some(3) && t.len() == 1, 2);
        cover(1);
    } else {
        expect_panic(1);
        cover(2);
        let r = if pick(2) == 0 {
            matches!(t.insert(&b[..l], 3), Ok(_))
        } else {
            t.get(&b[..l]).is_some()
        };
        // a refusal by value would be fine as well
        check(!r && t.len() == 0, 3);
    }
}

/// The three ways to store values agree on every answer.
#[unsafe(no_mangle)]
pub extern "C" fn h_variants() {
    let a: MassTree24<u64> = MassTree24::new();
    let b = TI::new();
    let mut c: MassTreeIndex<u64> = MassTreeIndex::new();
    const L: [usize; 4] = [0, 5, 8, 12];
    let bufs: [[u8; 12]; 3] = [any_bytes(), any_bytes(), any_bytes()];
    let lens = [L[part(4) as usize], L[pick(4) as usize], L[pick(4) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    check(a.is_empty() && b.is_empty() && c.is_empty(), 1);
    for i in [0, 1, 0] {
        let v = any_u64();
        let x = a.insert(k(i), v).ok().map(|o| o.map(|r| *r));
        let y = b.insert(k(i), v).ok();
        let z = c.insert(k(i), v).ok();
        check(x.is_some() && x == y && y == z, 2);
        check(a.len() == b.len() && b.len() == c.len(), 3);
        cover(1);
    }
    for i in 0..3 {
        let x = a.get(k(i)).map(|r| *r);
        check(x == b.get(k(i)) && x == c.get(k(i)), 4);
        let g = a.guard();
        check(a.get_ref(k(i), &g).copied() == x, 5);
        check(a.get_with_guard(k(i), &g).map(|r| *r) == x, 6);
        let g = b.guard();
        check(b.get_ref(k(i), &g).copied() == x && b.get_with_guard(k(i), &g) == x, 7);
        if x.is_some() { cover(2) } else { cover(3) }
    }
}
