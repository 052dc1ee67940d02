//! What the tree owns: values dropped exactly once, nodes freed exactly once, references valid under a guard.
use crate::seq::{key_be, order};
use crate::*;
use masstree::{MassTree24, MassTree24Inline};
use std::sync::Arc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

struct D(u64, *const AtomicU32);
unsafe impl Send for D {}
unsafe impl Sync for D {}
impl Drop for D {
    fn drop(&mut self) {
        unsafe { &*self.1 }.fetch_add(1, Relaxed);
    }
}

/// Inserts, updates and clones held by the caller: every value is dropped once, and never while reachable.
#[unsafe(no_mangle)]
pub extern "C" fn h_drop_once() {
    let c: [AtomicU32; 4] = std::array::from_fn(|_| AtomicU32::new(0));
    let n = |i: usize| c[i].load(Relaxed);
    let base = live();
    const L: [usize; 5] = [0, 3, 8, 9, 17];
    let bufs: [[u8; 17]; 3] = [any_bytes(), any_bytes(), any_bytes()];
    let lens = [L[part(5) as usize], L[pick(5) as usize], L[pick(5) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    let t: MassTree24<D> = MassTree24::new();
    let mut held: Option<Arc<D>> = None;
    let mut at: [Option<usize>; 3] = [None; 3]; // which value sits under key i
    for i in 0..3 {
        let prev = (0..i).rev().find(|j| same(k(*j), k(i))).and_then(|j| at[j]);
        let r = t.insert(k(i), D(i as u64, &c[i]));
        match r {
            Ok(None) => check(prev.is_none(), 1),
            Ok(Some(old)) => {
                check(prev == Some(old.0 as usize), 2);
                check(n(old.0 as usize) == 0, 3);
                let id = old.0 as usize;
                if pick(2) == 0 {
                    held = Some(old);
                } else {
                    drop(old);
                    // the tree no longer holds it; it may wait for a grace period, but not be dropped twice
                    check(n(id) <= 1, 4);
                }
                cover(1);
            }
            Err(_) => check(false, 5),
        }
        at[i] = Some(i);
    }
    for i in 0..3 {
        let g = t.get(k(i));
        check(g.is_some(), 6);
        if let Some(v) = g {
            check(n(v.0 as usize) == 0, 7);
        }
    }
    if let Some(h) = &held {
        check(n(h.0 as usize) == 0, 8);
    }
    drop(t);
    if let Some(h) = held {
        check(n(h.0 as usize) == 0, 9);
        drop(h);
        cover(2);
    }
    check((0..3).all(|i| n(i) == 1), 10);
    check(live() == base, 11);
    cover(3);
}

/// References obtained under a guard stay valid and unchanged while the guard lives, whatever is inserted.
#[unsafe(no_mangle)]
pub extern "C" fn h_guard_ref() {
    let c: [AtomicU32; 5] = std::array::from_fn(|_| AtomicU32::new(0));
    let n = |i: usize| c[i].load(Relaxed);
    let base = live();
    let t: MassTree24<D> = MassTree24::new();
    const L: [usize; 5] = [0, 8, 9, 17, 26];
    let mut bufs = [[0x41u8; 26]; 3];
    // the first slices differ as a whole or not at all; the third slice is free
    for b in &mut bufs {
        fill(&mut b[7..10]);
        fill(&mut b[15..]);
    }
    let lens = [L[part(5) as usize], L[pick(5) as usize], L[pick(5) as usize]];
    let k = |i: usize| &bufs[i][..lens[i]];
    let (v, w) = (any_u64(), any_u64());
    let _ = t.insert(k(0), D(v, &c[0]));
    let dup = same(k(0), k(1));
    drop(t.insert(k(1), D(w, &c[1])));
    {
        let g = t.guard();
        let r0 = t.get_ref(k(0), &g);
        let r1 = t.get_ref(k(1), &g);
        check(r0.is_some_and(|r| r.0 == if dup { w } else { v }), 1);
        check(r1.is_some_and(|r| r.0 == w), 2);
        let old = t.insert_with_guard(k(2), D(7, &c[2]), &g);
        check(old.is_ok(), 3);
        drop(old);
        let old = t.insert(k(0), D(8, &c[3]));
        check(old.is_ok_and(|o| o.is_some()), 4);
        let old = t.insert_with_guard(k(1), D(9, &c[4]), &g);
        check(old.is_ok_and(|o| o.is_some()), 5);
        check((dup || n(0) == 0) && n(1) == 0, 6);
        check(r0.is_some_and(|r| r.0 == if dup { w } else { v }), 7);
        check(r1.is_some_and(|r| r.0 == w), 8);
        cover(1);
    }
    check(n(4) == 0, 9);
    drop(t);
    check((0..5).all(|i| n(i) == 1), 10);
    check(live() == base, 11);
}

/// Dropping a tree of any of these shapes frees every block it allocated, once.
#[unsafe(no_mangle)]
pub extern "C" fn h_teardown() {
    let base = live();
    let p = part(10);
    let n: u64 = [0, 1, 24, 25, 60, 204, 400, 30, 230, 700][p as usize];
    let deep = p == 7 || p == 8;
    let ord = pick(3);
    let extra: [u8; 20] = any_bytes();
    let xl = [0usize, 8, 12, 20][pick(4) as usize];
    if pick(2) == 0 {
        let t = MassTree24Inline::<u64>::new();
        let mut k = *b"samepfx!________";
        for i in 0..n {
            let j = order(ord, i, n) + 1;
            k[8..].copy_from_slice(&key_be(j << 8));
            let _ = t.insert(if deep { &k } else { &k[8..] }, j);
        }
        let _ = t.insert(&extra[..xl], 1);
        check(live() > base, 1);
        drop(t);
        cover(1);
    } else {
        let t = MassTree24::<u64>::new();
        let mut k = *b"samepfx!________";
        for i in 0..n {
            let j = order(ord, i, n) + 1;
            k[8..].copy_from_slice(&key_be(j << 8));
            let _ = t.insert(if deep { &k } else { &k[8..] }, j);
        }
        let _ = t.insert(&extra[..xl], 1);
        let _ = t.insert(&extra[..xl], 2);
        drop(t);
        cover(2);
    }
    check(live() == base, 2);
}

/// Three keys of any lengths and bytes: whatever layers that builds, dropping frees all of it.
#[unsafe(no_mangle)]
pub extern "C" fn h_teardown_any() {
    const L: [usize; 6] = [0, 7, 8, 9, 16, 25];
    let base = live();
    let bufs: [[u8; 25]; 3] = [any_bytes(), any_bytes(), any_bytes()];
    let lens = [L[part(6) as usize], L[pick(6) as usize], L[pick(6) as usize]];
    let t = MassTree24::<u64>::new();
    for i in 0..3 {
        let r = t.insert(&bufs[i][..lens[i]], i as u64);
        check(r.is_ok(), 1);
        if r.is_ok_and(|o| o.is_some()) {
            cover(2);
        }
    }
    drop(t);
    check(live() == base, 2);
    cover(1);
}

/// The allocator frees every node once: those retired when no guard can see them any more, the rest at the end.
#[unsafe(no_mangle)]
pub extern "C" fn h_alloc() {
    use masstree::alloc24::{NodeAllocator24, SeizeAllocator24};
    use masstree::internode::InternodeNode;
    use masstree::value::LeafValueIndex;
    use masstree::LeafNode24;
    type S = LeafValueIndex<u64>;
    let tree = masstree::MassTree24Inline::<u64>::new();
    balanced(|| {
        let a: SeizeAllocator24<S> = SeizeAllocator24::new();
        let nl = pick(4) as usize;
        let ni = pick(3) as usize;
        let mut ls: [*mut LeafNode24<S>; 4] = [std::ptr::null_mut(); 4];
        let mut is: [*mut InternodeNode<S, 15>; 3] = [std::ptr::null_mut(); 3];
        for i in 0..nl {
            ls[i] = if pick(2) == 0 {
                a.alloc_leaf24(LeafNode24::<S>::new())
            } else {
                let p = Box::into_raw(LeafNode24::<S>::new());
                a.track_leaf24(p);
                p
            };
            unsafe { &*ls[i] }.set_ikey(0, 100 + i as u64);
        }
        for i in 0..ni {
            is[i] = if pick(2) == 0 {
                a.alloc_internode24(InternodeNode::new(i as u32))
            } else {
                let p = Box::into_raw(InternodeNode::new(i as u32));
                a.track_internode24(p);
                p
            };
        }
        check(a.leaf_count() == nl && a.internode_count() == ni, 1);
        let g = tree.guard();
        let rl = pick(5) as usize;
        let ri = pick(4) as usize;
        if rl < nl {
            unsafe { a.retire_leaf24(ls[rl], &g) };
        }
        if ri < ni {
            unsafe { a.retire_internode24(is[ri], &g) };
        }
        check(a.leaf_count() == nl - (rl < nl) as usize && a.internode_count() == ni - (ri < ni) as usize, 2);
        // the guard keeps all of them readable
        for i in 0..nl {
            check(unsafe { &*ls[i] }.ikey(0) == 100 + i as u64, 3);
        }
        for i in 0..ni {
            check(unsafe { &*is[i] }.height() == i as u32, 4);
        }
        drop(g);
        for i in 0..nl {
            check(i == rl || unsafe { &*ls[i] }.ikey(0) == 100 + i as u64, 5);
        }
        for i in 0..ni {
            check(i == ri || unsafe { &*is[i] }.height() == i as u32, 6);
        }
        if pick(2) == 1 {
            a.teardown_tree24(std::ptr::null_mut());
            check(a.leaf_count() == 0 && a.internode_count() == 0, 7);
            cover(1);
        }
        cover(2);
    });
}

/// Two threads insert shared values with counted drops: same key, update, new layer, update of the entry that
/// becomes a layer, split with an update of an entry that moves. What an insert returns stays alive while held.
#[unsafe(no_mangle)]
pub extern "C" fn h_ww_drop() {
    let c: [AtomicU32; 27] = std::array::from_fn(|_| AtomicU32::new(0));
    let n = |i: usize| c[i].load(Relaxed);
    let base = live();
    let p = part(6);
    let deep = pick(2) == 1;
    let cut = if deep { 0 } else { 8 };
    let t: MassTree24<D> = MassTree24::new();
    let key = |x: u64, s: &[u8]| {
        let mut k = Vec::with_capacity(20);
        k.extend_from_slice(b"samepfx!");
        k.extend_from_slice(&x.to_be_bytes());
        k.extend_from_slice(s);
        k.drain(..cut);
        k
    };
    // the key of value 0, and the two writers' keys
    let (k0, a, b, m) = match p {
        0 => (key(7, b""), key(9, b""), key(9, b""), 1),
        1 => (key(9, b"x"), key(9, b"x"), key(9, b"x"), 1),
        2 => (key(9, b"x"), key(9, b"y"), key(9, b"z"), 1),
        3 => (key(9, b"x"), key(9, b"x"), key(9, b"y"), 1),
        4 => (key(1 << 8, b"x"), key(30 << 8, b""), key(20 << 8, b"x"), 24),
        _ => (key(1 << 8, b"x"), key(2, b"y"), key(20 << 8, b"y"), 24),
    };
    let _ = t.insert(&k0, D(0, &c[0]));
    for i in 1..m {
        let _ = t.insert(&key((i as u64 + 1) << 8, b"x"), D(i as u64, &c[i]));
    }
    let (mut ra, mut rb) = (None, None);
    run2(
        2,
        &mut || ra = t.insert(&a, D(25, &c[25])).ok(),
        &mut || rb = t.insert(&b, D(26, &c[26])).ok(),
    );
    check(ra.is_some() && rb.is_some(), 1);
    let (oa, ob) = (ra.flatten(), rb.flatten());
    // what was replaced, by whom, and what remains
    let old = t.get(&a).map(|v| v.0);
    if a == b {
        let first = if p == 1 { Some(0) } else { None };
        let (x, y) = (oa.as_ref().map(|v| v.0), ob.as_ref().map(|v| v.0));
        check(x == first && y == Some(25) && old == Some(26) || y == first && x == Some(26) && old == Some(25), 2);
    } else {
        check(old == Some(25) && t.get(&b).map(|v| v.0) == Some(26), 3);
        let r = |k: &[u8]| if k == k0 { Some(0) } else if p == 4 && k == b { Some(19) } else { None };
        check(oa.as_ref().map(|v| v.0) == r(&a) && ob.as_ref().map(|v| v.0) == r(&b), 4);
    }
    for o in [&oa, &ob].into_iter().flatten() {
        check(n(o.0 as usize) == 0, 5);
    }
    let gone = |i: u64| [&oa, &ob].into_iter().flatten().any(|o| o.0 == i);
    for i in 0..m {
        let k = if i == 0 { k0.clone() } else { key((i as u64 + 1) << 8, b"x") };
        if !gone(i as u64) {
            check(t.get(&k).is_some_and(|v| v.0 == i as u64) && n(i) == 0, 6);
        }
    }
    check((25..27).all(|i| gone(i) || n(i as usize) == 0), 7);
    drop(t);
    for o in [&oa, &ob].into_iter().flatten() {
        check(n(o.0 as usize) == 0, 8);
    }
    drop((oa, ob));
    check((0..m).chain(25..27).all(|i| n(i) == 1), 9);
    drop((k0, a, b));
    check(live() == base, 10);
    cover(1);
}

/// A reader takes a shared value and keeps it while a writer replaces it, makes a layer of its entry or splits its leaf.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_drop() {
    let c: [AtomicU32; 27] = std::array::from_fn(|_| AtomicU32::new(0));
    let n = |i: usize| c[i].load(Relaxed);
    let base = live();
    let p = part(4);
    let t: MassTree24<D> = MassTree24::new();
    let k: &[u8] = b"updkey00tail";
    let _ = t.insert(k, D(0, &c[0]));
    if p == 3 {
        for i in 1..24 {
            let _ = t.insert(&(i as u64).to_be_bytes(), D(i as u64, &c[i]));
        }
    }
    let mut kept = None;
    run2(
        0,
        &mut || {
            if p > 0 {
                let x: &[u8] = [b"updkey00".as_slice(), b"updkey00taiL", b"zzzzzzzz"][p as usize - 1];
                check(matches!(t.insert(x, D(25, &c[25])), Ok(None)), 1);
            }
            check(matches!(t.insert(k, D(26, &c[26])), Ok(Some(o)) if o.0 == 0), 2);
        },
        &mut || {
            kept = t.get(k);
            check(kept.as_ref().is_some_and(|v| n(v.0 as usize) == 0), 3);
        },
    );
    check(kept.as_ref().is_some_and(|v| (v.0 == 0 || v.0 == 26) && n(v.0 as usize) == 0), 4);
    if p == 0 && kept.as_ref().is_some_and(|v| v.0 == 26) {
        cover(2);
    }
    drop(t);
    check(kept.as_ref().is_some_and(|v| n(v.0 as usize) == 0), 5);
    drop(kept);
    let m = if p == 3 { 24 } else { 1 };
    check((0..m).chain(26..27).all(|i| n(i) == 1) && n(25) == (p > 0) as u32, 6);
    check(live() == base, 7);
    cover(1);
}
