//! Key slicing and ordering, suffix bags, search routines.
use crate::*;
use masstree::key::Key;
use masstree::ksearch::{self, simd};
use masstree::permuter::Permuter;
use masstree::{Permuter24, SuffixBag};
use std::cmp::Ordering;

/// Big-endian slice of up to 8 bytes of `d` starting at `off`, zero padded.
fn slice8(d: &[u8], off: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..8 {
        v = (v << 8) | if off + i < d.len() { d[off + i] as u64 } else { 0 };
    }
    v
}

/// Every length 0..=41 and the longest ones, any content: slices, shifts, suffixes.
#[unsafe(no_mangle)]
pub extern "C" fn h_key_slices() {
    let buf: [u8; 256] = any_bytes();
    let n = pick(46) as usize;
    let n = if n > 41 { [248, 249, 255, 256][n - 42] } else { n };
    let d = &buf[..n];
    let mut k = Key::new(d);
    check(k.len() == n && k.full_data().len() == n, 1);
    check(k.shift_count() == 0 && !k.is_shifted(), 2);
    check(Key::read_ikey(d, 0) == slice8(d, 0), 3);
    check(k.is_empty() == (n == 0), 11);
    let mut off = 0;
    loop {
        let rest = n - off;
        check(k.ikey() == slice8(d, off), 4);
        check(Key::read_ikey(d, off) == slice8(d, off), 5);
        check(k.current_len() == rest, 6);
        check(k.has_suffix() == (rest > 8), 7);
        check(k.suffix_start() == if rest > 8 { off + 8 } else { n }, 8);
        check(k.suffix_len() == rest.saturating_sub(8), 9);
        check(same(k.suffix(), if rest > 8 { &d[off + 8..] } else { &[] }), 10);
        check(k.is_shifted() == (off > 0) && k.shift_count() == off / 8, 12);
        if rest <= 8 {
            break;
        }
        k.shift();
        off += 8;
        cover(1);
    }
    if off > 0 {
        let mut u = k;
        u.unshift();
        check(u.ikey() == slice8(d, off - 8) && u.suffix_start() == off && u.shift_count() == off / 8 - 1, 13);
        check(same(u.suffix(), &d[off..]), 14);
        k.unshift_all();
        check(k.ikey() == slice8(d, 0) && k.shift_count() == 0 && k.suffix_start() == n.min(8), 15);
        let mut s = Key::new(d);
        s.shift_by(off);
        check(s.ikey() == slice8(d, off) && s.suffix_start() == n && s.shift_count() == off / 8, 16);
        let t = Key::from_suffix(&d[8..]);
        check(t.ikey() == slice8(d, 8) && t.len() == n - 8, 17);
        cover(2);
    }
    if n > 0 && n < 8 {
        check(Key::read_ikey_slow(d) == slice8(d, 0), 18);
    }
}

/// Slices order keys like byte strings: (slice, length class) decides exactly as bytes do.
#[unsafe(no_mangle)]
pub extern "C" fn h_key_order() {
    let (ba, bb): ([u8; 10], [u8; 10]) = (any_bytes(), any_bytes());
    let (la, lb) = (pick(11) as usize, pick(11) as usize);
    let (a, b) = (&ba[..la], &bb[..lb]);
    let (ka, kb) = (Key::new(a), Key::new(b));
    let real = {
        // first differing byte, else the shorter one first
        let mut r = la.cmp(&lb);
        for i in (0..la.min(lb)).rev() {
            if ba[i] != bb[i] {
                r = ba[i].cmp(&bb[i]);
            }
        }
        r
    };
    let lenx = if lb > 8 { 64 } else { lb };
    let got = ka.compare(kb.ikey(), lenx);
    if la > 8 && lb > 8 && ka.ikey() == kb.ikey() {
        check(got == Ordering::Equal, 1);
        cover(1);
    } else {
        check(got == real, 2);
        cover(2);
    }
    check(Key::compare_ikey(ka.ikey(), kb.ikey()) == ka.ikey().cmp(&kb.ikey()), 3);
    if ka.ikey() != kb.ikey() {
        check((ka.ikey() < kb.ikey()) == (real == Ordering::Less), 4);
    }
    let w = any_u64();
    let f = Key::from_ikey(w);
    check(f.ikey() == w, 5);
}

/// Keys of more than 256 bytes are refused when the key is made.
#[unsafe(no_mangle)]
pub extern "C" fn h_key_limit() {
    let b = [7u8; 300];
    let n = 256 + pick(4) as usize;
    if n == 256 {
        let k = Key::new(&b[..n]);
        check(k.len() == 256, 1);
        cover(1);
        return;
    }
    cover(2);
    expect_panic(2);
    let k = Key::new(&b[..n]);
    check(k.len() == 0, 3);
}

const SL: [usize; 3] = [0, 5, 17];

/// Bags as full as they get: 24 suffixes of up to the longest lengths, replaced, cleared and compacted.
#[unsafe(no_mangle)]
pub extern "C" fn h_suffix_big() {
    const W: usize = 24;
    let p = part(4);
    let (n, step) = [(248usize, 0usize), (25, 10), (3000, 97), (9_000, 300)][p as usize];
    let len = |i: usize| if i % 7 == 6 { 0 } else { n - step * i.min(20) / if step > n / 21 { 21 } else { 1 } };
    let mut bag: SuffixBag<W> = SuffixBag::new();
    let buf = vec![0x5au8; n];
    let mark: [[u8; 2]; W] = std::array::from_fn(|_| any_bytes());
    let put = |b: &mut Vec<u8>, i: usize, l: usize| {
        b.truncate(0);
        b.extend_from_slice(&buf[..l]);
        if l > 0 {
            b[0] = mark[i][0];
            b[l - 1] = mark[i][1];
        }
    };
    let mut b: Vec<u8> = Vec::with_capacity(n);
    for i in 0..W {
        put(&mut b, i, len(i));
        bag.assign(i, &b);
    }
    let mut cut = W;
    let x = [0usize, 3, 23][pick(3) as usize];
    match pick(4) {
        0 => {
            bag.clear(x);
            cut = x;
            bag.compact(0..W);
        }
        1 => {
            bag.compact((0..W).filter(|i| *i != x));
            cut = x;
        }
        2 => {
            bag = bag.clone();
        }
        _ => {
            bag.compact((0..W).rev());
        }
    }
    for i in 0..W {
        if i == cut {
            check(bag.get(i).is_none() && !bag.has_suffix(i), 1);
            continue;
        }
        let g = bag.get(i);
        check(g.is_some_and(|g| g.len() == len(i)), 2);
        if let Some(g) = g
            && g.len() == len(i)
            && g.len() > 0
        {
            check(g[0] == mark[i][0] || g.len() == 1, 3);
            check(g[g.len() - 1] == mark[i][1], 4);
            put(&mut b, i, len(i));
            check(bag.suffix_equals(i, &b), 5);
        }
    }
    check(bag.count() == W - (cut < W) as usize, 6);
    cover(1);
}

/// Any sequence of operations on a bag of suffixes acts like an array of optional strings.
#[unsafe(no_mangle)]
pub extern "C" fn h_suffix_bag() {
    const N: usize = 2;
    let mut bag: SuffixBag<N> = match part(3) {
        0 => SuffixBag::new(),
        1 => SuffixBag::with_capacity(12),
        _ => SuffixBag::with_capacity(0),
    };
    let mut model: [Option<([u8; 17], usize)>; N] = [None; N];
    for step in 0..3 {
        let op = pick(4);
        let slot = if op < 3 { pick(N as u64) as usize } else { 0 };
        match op {
            0 => {
                let b: [u8; 17] = any_bytes();
                let l = SL[pick(3) as usize];
                bag.assign(slot, &b[..l]);
                model[slot] = Some((b, l));
            }
            1 => {
                let b: [u8; 17] = any_bytes();
                let l = SL[pick(3) as usize];
                let (used, cap) = (bag.used(), bag.capacity());
                let fits = model[slot].is_some_and(|m| l <= m.1) || used + l <= cap;
                let ok = bag.try_assign_in_place(slot, &b[..l]);
                check(ok == fits, 1);
                check(bag.capacity() == cap, 2);
                if ok {
                    model[slot] = Some((b, l));
                    cover(1);
                } else {
                    cover(2);
                }
            }
            2 => {
                bag.clear(slot);
                model[slot] = None;
            }
            _ => {
                let before = bag.used();
                let (keep, freed) = match pick(3) {
                    0 => (0b11u8, bag.compact(0..N)),
                    1 => (0b10, bag.compact([1usize, 7].into_iter())),
                    _ => {
                        let mut p = Permuter::<2>::empty();
                        let _ = p.insert_from_back(0);
                        let _ = p.insert_from_back(0);
                        (0b01, bag.compact_with_permuter(&p, Some(1)))
                    }
                };
                let mut live = 0;
                for i in 0..N {
                    if keep & (1 << i) == 0 {
                        model[i] = None;
                    }
                    live += model[i].map_or(0, |m| m.1);
                }
                check(bag.used() == live, 3);
                check(freed == before.saturating_sub(live), 4);
                cover(3);
            }
        }
        let _ = step;
    }
    let q: [u8; 17] = any_bytes();
    let ql = SL[pick(3) as usize];
    let mut count = 0;
    for i in 0..N {
        match &model[i] {
            Some((b, l)) => {
                count += 1;
                check(bag.has_suffix(i), 5);
                check(bag.get(i).is_some_and(|s| same(s, &b[..*l])), 6);
                check(same(bag.get_or_empty(i), &b[..*l]), 7);
                check(bag.suffix_equals(i, &q[..ql]) == same(&b[..*l], &q[..ql]), 8);
            }
            None => {
                check(!bag.has_suffix(i) && bag.get(i).is_none() && bag.get_or_empty(i).is_empty(), 9);
                check(!bag.suffix_equals(i, &q[..ql]), 10);
            }
        }
    }
    check(bag.count() == count, 11);
    let c = bag.clone();
    for i in 0..N {
        if let Some((b, l)) = &model[i] {
            check(c.get(i).is_some_and(|s| same(s, &b[..*l])), 12);
        } else {
            check(c.get(i).is_none(), 13);
        }
    }
}

/// Comparison against a stored suffix is byte-string comparison.
#[unsafe(no_mangle)]
pub extern "C" fn h_suffix_cmp() {
    let mut bag: SuffixBag<24> = SuffixBag::new();
    let slot = pick(24) as usize;
    let (a, b): ([u8; 9], [u8; 9]) = (any_bytes(), any_bytes());
    let (la, lb) = ([0usize, 1, 3, 9][pick(4) as usize], [0usize, 1, 3, 9][pick(4) as usize]);
    bag.assign(slot, &a[..la]);
    let mut r = la.cmp(&lb);
    for i in (0..la.min(lb)).rev() {
        if a[i] != b[i] {
            r = a[i].cmp(&b[i]);
        }
    }
    check(bag.suffix_compare(slot, &b[..lb]) == Some(r), 1);
    check(bag.suffix_compare((slot + 1) % 24, &b[..lb]).is_none(), 2);
    cover(1);
}

fn any_sorted<const N: usize>() -> [u64; N] {
    let mut k = [0u64; N];
    for i in 0..N {
        k[i] = any_u64();
        if i > 0 {
            assume(k[i - 1] < k[i]);
        }
    }
    k
}

/// Binary and linear searches over any sorted keys, any size, any permutation.
#[unsafe(no_mangle)]
pub extern "C" fn h_bound_by() {
    const N: usize = 15;
    let k = any_sorted::<N>();
    let n = part(N as u64 + 1) as usize;
    // physical slot of position i: the free slots are handed out in the order of these positions
    let mut p = Permuter::<N>::empty();
    let rev = pick(2) == 1;
    for i in 0..n {
        let _ = p.insert_from_back(if rev { 0 } else { i });
    }
    let mut phys = [0u64; N];
    for i in 0..n {
        phys[p.get(i)] = k[i];
    }
    let t = any_u64();
    let cmp = |s: usize| t.cmp(&phys[s]);
    // r is the number of keys below (or not above) the target
    let lower = |r: usize| r <= n && (r == 0 || k[r - 1] < t) && (r == n || t <= k[r]);
    let upper = |r: usize| r <= n && (r == 0 || k[r - 1] <= t) && (r == n || t < k[r]);
    let a = ksearch::lower_bound_by(n, p, cmp);
    let b = ksearch::lower_bound_linear_by(n, p, cmp);
    check(lower(a.i), 1);
    check(lower(b.i), 2);
    check(a.is_found() == (a.i < n && k[a.i] == t) && b.is_found() == a.is_found(), 3);
    if a.is_found() {
        check(a.p == p.get(a.i) && a.slot() == a.p && a.try_slot() == Some(a.p), 4);
        check(b.is_found() && b.p == a.p, 5);
        cover(1);
    } else {
        check(a.try_slot().is_none() && b.try_slot().is_none(), 6);
        cover(2);
    }
    let u = ksearch::upper_bound_by(n, p, cmp);
    let v = ksearch::upper_bound_linear_by(n, p, cmp);
    check(upper(u), 7);
    check(upper(v), 8);
}

/// Vector and scalar searches compute the same thing on every processor: any keys, any target, any length.
#[unsafe(no_mangle)]
pub extern "C" fn h_simd() {
    let feat = part(3); // 0: neither, 1: sse4.1, 2: avx2
    unsafe { vs_cpu(feat) };
    let k: [u64; 9] = {
        let mut k = [0u64; 9];
        for x in &mut k {
            *x = any_u64();
        }
        k
    };
    let t = any_u64();
    let n = pick(10) as usize;
    match pick(3) {
        0 => {
            let r = simd::find_exact_u64(&k[..n], t);
            let mut w = None;
            for i in (0..n).rev() {
                if k[i] == t {
                    w = Some(i);
                }
            }
            check(r == w, 1);
            check(simd::find_exact_u64_scalar(&k[..n], t) == w, 2);
            cover(1);
        }
        1 => {
            let r = simd::count_le_u64(&k, n, t);
            let mut w = 0;
            for i in 0..n {
                w += (k[i] <= t) as usize;
            }
            check(r == w, 3);
            check(simd::count_le_u64_scalar(&k, n, t) == w, 4);
            cover(2);
        }
        _ => {
            let r = simd::find_all_matches_u64(&k, n, t);
            let mut w = 0u32;
            for i in 0..n {
                w |= ((k[i] == t) as u32) << i;
            }
            check(r == w, 5);
            check(simd::find_all_matches_u64_scalar(&k, n, t) == w, 6);
            cover(3);
        }
    }
}

/// The 24-wide leaf search: a bit for every slot that holds the slice, on every processor.
#[unsafe(no_mangle)]
pub extern "C" fn h_simd_leaf() {
    let feat = part(3);
    unsafe { vs_cpu(feat) };
    use masstree::value::LeafValue;
    let leaf = masstree::LeafNode24::<LeafValue<u64>>::new();
    let mut w = 0u32;
    let t = any_u64();
    for i in 0..24 {
        let k = any_u64();
        leaf.set_ikey(i, k);
        w |= ((k == t) as u32) << i;
    }
    check(ksearch::find_ikey_matches_leaf24(t, &leaf) == w, 1);
    let d: u32 = masstree::TreeLeafNode::find_ikey_matches(&*leaf, t);
    check(d == w, 2);
    cover(1);
    let _ = Permuter24::empty();
}
