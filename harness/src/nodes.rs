//! Leaf and internode operations on nodes with arbitrary contents.
use crate::*;
use masstree::internode::InternodeNode;
use masstree::ksearch;
use masstree::leaf_trait::{FreezeGuardOps, TreeLeafNode};
use masstree::value::LeafValueIndex;
use masstree::{is_marked, mark_ptr, unmark_ptr, LeafNode24, Permuter24, ValueSlot};

type S = LeafValueIndex<u64>;
type L = LeafNode24<S>;
type N = InternodeNode<S, 15>;

fn val(i: usize) -> *mut u8 {
    <S as ValueSlot>::output_consume_to_raw(1000 + i as u64)
}
fn read(p: *mut u8) -> u64 {
    if p.is_null() { 0 } else { unsafe { <S as ValueSlot>::output_from_raw(p.cast_const()) } }
}

/// A leaf of `n` entries whose slices are any non-descending values; entry i is 1000+i, some have suffixes.
/// The order in which slots were handed out is one of several.
fn any_leaf(n: usize, order: u64, ks: &[u64; 24], sufs: &[[u8; 3]; 24], g: &seize::LocalGuard<'_>) -> (Box<L>, [usize; 24]) {
    let leaf = L::new_boxed();
    let mut p = Permuter24::empty();
    let mut slots = [0usize; 24];
    for i in 0..n {
        let at = match order {
            0 => i,
            1 => 0,
            _ => i / 2,
        };
        let _ = p.insert_from_back(at);
    }
    for i in 0..n {
        let s = p.get(i);
        slots[i] = s;
        leaf.set_ikey(s, ks[i]);
        leaf.set_leaf_value_ptr(s, val(i));
        // equal slices differ in their length class
        let lenx = lenx_of(i);
        leaf.set_keylenx(s, lenx);
        if lenx == 64 {
            unsafe { TreeLeafNode::assign_ksuf(&*leaf, s, &sufs[i], g) };
        }
    }
    leaf.set_permutation(p);
    (leaf, slots)
}
fn lenx_of(i: usize) -> u8 {
    [1, 2, 3, 4, 5, 6, 7, 8, 64][i % 9]
}

/// Splitting any leaf at the chosen point: a legal boundary, every entry on exactly one side, order kept.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_split() {
    let sizes = [2usize, 3, 4, 9, 23, 24];
    let n = sizes[part(6) as usize];
    let order = pick(3);
    let tree = masstree::MassTree24Inline::<u64>::new();
    let g = tree.guard();
    let mut ks = [0u64; 24];
    let mut sufs = [[0u8; 3]; 24];
    for i in 0..n {
        ks[i] = any_u64();
        if i > 0 {
            // a run of equal slices can span at most the 10 length classes
            assume(ks[i - 1] <= ks[i]);
        }
        if lenx_of(i) == 64 {
            sufs[i] = any_bytes();
        }
    }
    let (leaf, slots) = any_leaf(n, order, &ks, &sufs, &g);
    let ins = any_u64();
    let mut lock = leaf.version().lock();
    lock.mark_split();
    let fz = TreeLeafNode::freeze_permutation(&*leaf);
    check(FreezeGuardOps::snapshot(&fz).size() == n, 1);
    check(leaf.is_permutation_frozen() && TreeLeafNode::permutation_try(&*leaf).is_err(), 2);
    drop(fz);
    check(!leaf.is_permutation_frozen() && TreeLeafNode::permutation_try(&*leaf).is_ok(), 3);
    let before = leaf.permutation();
    let mut ok = before.size() == n;
    for i in 0..n {
        ok &= before.get(i) == slots[i];
    }
    check(ok, 4);
    let Some(sp) = leaf.calculate_split_point(0, ins) else {
        // only when no legal boundary lies in the direction it looks
        let m = n / 2;
        let mut down = true; // positions m-1, m-2, .. all equal to position m
        let mut up = true;
        for i in 0..n {
            if i < m {
                down &= ks[i] == ks[m];
            } else {
                up &= ks[i] == ks[m - 1];
            }
        }
        check(down || up, 5);
        cover(1);
        drop(lock);
        return;
    };
    let pos = sp.pos;
    check(pos > 0 && pos < n, 6);
    check(ks[pos - 1] != ks[pos], 7);
    check(sp.split_ikey == ks[pos], 8);
    let (r, sk, _) = unsafe { leaf.split_into_preallocated(pos, L::new_boxed(), &g) };
    check(sk == ks[pos], 9);
    check(r.version().is_locked() && r.version().is_splitting() && r.version().is_leaf(), 10);
    check(!leaf.is_permutation_frozen() && !r.is_permutation_frozen(), 11);
    let (lp, rp) = (leaf.permutation(), r.permutation());
    check(lp.size() == pos && rp.size() == n - pos, 12);
    // the left permutation is still a permutation of all slots
    let mut seen = 0u32;
    for i in 0..24 {
        seen |= 1 << lp.get(i);
    }
    check(seen == (1 << 24) - 1, 13);
    for i in 0..n {
        let (at, s) = if i < pos { (&leaf, lp.get(i)) } else { (&r, rp.get(i - pos)) };
        check(at.ikey(s) == ks[i], 14);
        check(at.keylenx(s) == lenx_of(i), 15);
        check(read(at.leaf_value_ptr(s)) == 1000 + i as u64, 16);
        if lenx_of(i) == 64 {
            check(TreeLeafNode::ksuf(&**at, s).is_some_and(|x| same(x, &sufs[i])), 17);
        }
        if i >= pos {
            check(leaf.leaf_value_ptr(slots[i]).is_null(), 18);
        }
    }
    cover(2);
    r.version().unlock_for_split();
    drop(lock);
}

/// Moving everything to the right sibling.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_all_right() {
    let n = [1usize, 9, 24][pick(3) as usize];
    let order = pick(3);
    let tree = masstree::MassTree24Inline::<u64>::new();
    let g = tree.guard();
    let mut ks = [0u64; 24];
    let mut sufs = [[0u8; 3]; 24];
    for i in 0..n {
        ks[i] = any_u64();
        sufs[i] = any_bytes();
    }
    let (leaf, _) = any_leaf(n, order, &ks, &sufs, &g);
    let mut lock = leaf.version().lock();
    lock.mark_split();
    let (r, sk, _) = unsafe { leaf.split_all_to_right_preallocated(L::new_boxed(), &g) };
    check(sk == ks[0], 1);
    check(leaf.permutation().size() == 0 && r.permutation().size() == n, 2);
    check(!leaf.is_permutation_frozen() && !r.is_permutation_frozen(), 3);
    for i in 0..n {
        let s = r.permutation().get(i);
        check(r.ikey(s) == ks[i] && r.keylenx(s) == lenx_of(i), 4);
        check(read(r.leaf_value_ptr(s)) == 1000 + i as u64, 5);
        if lenx_of(i) == 64 {
            check(TreeLeafNode::ksuf(&*r, s).is_some_and(|x| same(x, &sufs[i])), 6);
        }
    }
    for s in 0..24 {
        check(leaf.leaf_value_ptr(s).is_null(), 7);
    }
    r.version().unlock_for_split();
    drop(lock);
    cover(1);
}

/// Freezing a leaf: readers see it, a dropped guard restores, publishing replaces.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_freeze() {
    let leaf = L::new_boxed();
    let n = pick(25) as usize;
    let mut p = Permuter24::empty();
    for i in 0..n {
        let _ = p.insert_from_back(i / 2);
    }
    leaf.set_permutation(p);
    let mut lock = leaf.version().lock();
    lock.mark_split();
    let g = TreeLeafNode::freeze_permutation(&*leaf);
    check(leaf.is_permutation_frozen(), 1);
    check(TreeLeafNode::permutation_try(&*leaf).is_err(), 2);
    check(FreezeGuardOps::snapshot_raw(&g) == p.value() && FreezeGuardOps::snapshot(&g) == p, 3);
    // an insert prepared before the freeze cannot publish
    let mut q = p;
    if n < 24 {
        let _ = q.insert_from_back(0);
        check(TreeLeafNode::cas_permutation_raw(&*leaf, p, q).is_err_and(|e| e.is_frozen()), 5);
        cover(1);
    }
    if pick(2) == 0 {
        drop(g);
        check(leaf.permutation() == p && TreeLeafNode::permutation_wait(&*leaf) == p, 6);
        cover(2);
    } else {
        let w = Permuter24::make_sorted(n / 2);
        TreeLeafNode::unfreeze_set_permutation(&*leaf, g, w);
        check(leaf.permutation() == w && TreeLeafNode::permutation_wait(&*leaf) == w, 7);
        cover(3);
    }
    check(!leaf.is_permutation_frozen(), 8);
    drop(lock);
}

/// Freezing without the lock, or without announcing the split, is refused.
#[unsafe(no_mangle)]
pub extern "C" fn h_freeze_needs_lock() {
    let leaf = L::new_boxed();
    match pick(2) {
        0 => {
            cover(1);
            expect_panic(1);
            let _g = TreeLeafNode::freeze_permutation(&*leaf);
        }
        _ => {
            let _l = leaf.version().lock();
            cover(2);
            expect_panic(2);
            let _g = TreeLeafNode::freeze_permutation(&*leaf);
        }
    }
    check(false, 1);
}

/// Publishing by compare-and-swap: succeeds exactly when the word is the expected one.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_cas() {
    let leaf = L::new_boxed();
    let (a, b, c) = (
        Permuter24::from_value(any_u128()),
        Permuter24::from_value(any_u128()),
        Permuter24::from_value(any_u128()),
    );
    leaf.set_permutation(a);
    let frozen = masstree::Freeze24Utils::is_frozen(a.value());
    let r = if !frozen && pick(2) == 0 {
        leaf.cas_permutation(b, c).is_ok()
    } else {
        TreeLeafNode::cas_permutation_raw(&*leaf, b, c).is_ok()
    };
    if a == b {
        check(r && leaf.permutation_raw() == c.value(), 1);
        cover(1);
    } else if a != b {
        check(!r && leaf.permutation_raw() == a.value(), 2);
        cover(2);
    }
    let s = pick(24) as usize;
    let (x, y, z) = (any_u64() as *mut u8, any_u64() as *mut u8, any_u64() as *mut u8);
    leaf.set_leaf_value_ptr(s, x);
    let w = leaf.cas_slot_value(s, y, z);
    check(w.is_ok() == (x == y), 3);
    check(leaf.load_slot_value(s) == if x == y { z } else { x }, 4);
    check(leaf.take_leaf_value_ptr(s) == if x == y { z } else { x } && leaf.is_slot_empty(s), 5);
}

/// Linking a sibling keeps the chain: self -> new -> old next, back links included.
#[unsafe(no_mangle)]
pub extern "C" fn h_link() {
    let (a, b, c) = (L::new_boxed(), L::new_boxed(), L::new_boxed());
    let p = |x: &Box<L>| std::ptr::from_ref(&**x).cast_mut();
    unsafe {
        a.link_sibling(p(&c));
        check(a.safe_next() == p(&c) && !a.next_is_marked() && c.prev() == p(&a) && c.safe_next().is_null(), 1);
        a.link_sibling(p(&b));
    }
    check(a.safe_next() == p(&b) && b.prev() == p(&a), 2);
    check(b.safe_next() == p(&c) && c.prev() == p(&b), 3);
    check(!a.next_is_marked() && !b.next_is_marked() && c.safe_next().is_null(), 4);
    a.mark_next();
    check(a.next_is_marked() && a.safe_next() == p(&b), 5);
    a.unmark_next();
    check(!a.next_is_marked() && a.next_raw() == p(&b), 6);
    let x = (any_u64() & !7) as *mut u64;
    check(is_marked(mark_ptr(x)) && !is_marked(x) && unmark_ptr(mark_ptr(x)) == x && unmark_ptr(x) == x, 7);
    check(mark_ptr(mark_ptr(x)) == mark_ptr(x), 8);
    cover(1);
}

/// Two splits linking at the same leaf from two threads: both siblings end up in the chain.
#[unsafe(no_mangle)]
pub extern "C" fn h_link_race() {
    let (a, b, c, d) = (L::new_boxed(), L::new_boxed(), L::new_boxed(), L::new_boxed());
    let p = |x: &Box<L>| std::ptr::from_ref(&**x).cast_mut();
    if pick(2) == 1 {
        a.set_next(p(&d));
        d.set_prev(p(&a));
    }
    let tail = a.safe_next();
    run2(
        4,
        &mut || unsafe { a.link_sibling(p(&b)) },
        &mut || unsafe { a.link_sibling(p(&c)) },
    );
    let x = a.safe_next();
    let y = unsafe { &*x }.safe_next();
    check((x == p(&b) && y == p(&c)) || (x == p(&c) && y == p(&b)), 1);
    check(unsafe { &*y }.safe_next() == tail, 2);
    check(unsafe { &*x }.prev() == p(&a) && unsafe { &*y }.prev() == x, 3);
    check(tail.is_null() || unsafe { &*tail }.prev() == y, 4);
    check(!a.next_is_marked(), 5);
    if x == p(&b) {
        cover(1);
    } else {
        cover(2);
    }
}

fn fake(i: usize) -> *mut u8 {
    (0x10_0000 + 64 * i) as *mut u8
}
type I<const W: usize> = InternodeNode<S, W>;
/// An internode with n keys (any values) and n+1 distinct children.
fn any_inode<const W: usize>(n: usize, ks: &[u64; 16]) -> Box<I<W>> {
    let x = I::<W>::new(0);
    x.set_child(0, fake(0));
    for i in 0..n {
        x.assign(i, ks[i], fake(i + 1));
    }
    x.set_nkeys(n as u8);
    x
}

/// Insert at any position of any internode: keys and children shift together.
#[unsafe(no_mangle)]
pub extern "C" fn h_inode_insert() {
    match pick(4) {
        0 => inode_insert::<15>(),
        1 => inode_insert::<8>(),
        2 => inode_insert::<3>(),
        _ => inode_insert::<1>(),
    }
}
fn inode_insert<const W: usize>() {
    let mut ks = [0u64; 16];
    for k in &mut ks[..W] {
        *k = any_u64();
    }
    let n = pick(W as u64) as usize;
    let x = any_inode::<W>(n, &ks);
    let p = pick(n as u64 + 1) as usize;
    let k = any_u64();
    x.insert_key_and_child(p, k, fake(99));
    check(x.nkeys() == n + 1 && x.size() == n + 1 && x.is_full() == (n + 1 == W) && !x.is_empty(), 1);
    for i in 0..=n {
        let want = if i < p { ks[i] } else if i == p { k } else { ks[i - 1] };
        check(x.ikey(i) == want, 2);
    }
    for i in 0..=n + 1 {
        let want = if i <= p { fake(i) } else if i == p + 1 { fake(99) } else { fake(i - 1) };
        check(x.child(i) == want, 3);
    }
    cover(1);
}

/// Split of a full internode with insertion anywhere: left, the key moved up, and right are the old
/// sequence with the new pair inserted.
#[unsafe(no_mangle)]
pub extern "C" fn h_inode_split() {
    match pick(4) {
        0 => inode_split::<15>(),
        1 => inode_split::<8>(),
        2 => inode_split::<5>(),
        _ => inode_split::<3>(),
    }
}
fn inode_split<const W: usize>() {
    let mut ks = [0u64; 16];
    for k in &mut ks[..W] {
        *k = any_u64();
    }
    let p = pick(W as u64 + 1) as usize;
    let x = any_inode::<W>(W, &ks);
    // the height of the sibling comes from the node that splits
    let mut r = I::<W>::new(pick(2) as u32 * 3);
    let rp = std::ptr::from_mut(&mut *r);
    let k = any_u64();
    let (up, left) = x.split_into(&mut r, rp, p, k, fake(99));
    let (nl, nr) = (x.nkeys(), r.nkeys());
    check(nl + nr == W && nl > 0 && nr > 0, 1);
    check(nl.abs_diff(nr) <= 1, 2);
    check(r.height() == x.height() && r.children_are_leaves(), 3);
    check(!left || p <= nl, 4);
    for i in 0..=W {
        let want = if i < p { ks[i] } else if i == p { k } else { ks[i - 1] };
        let got = if i < nl { x.ikey(i) } else if i == nl { up } else { r.ikey(i - nl - 1) };
        check(got == want, 5);
    }
    for i in 0..W + 2 {
        let want = if i <= p { fake(i) } else if i == p + 1 { fake(99) } else { fake(i - 1) };
        let got = if i <= nl { x.child(i) } else { r.child(i - nl - 1) };
        check(got == want, 6);
    }
    cover(1);
}

/// Internode children of a split internode point back to the node that holds them.
#[unsafe(no_mangle)]
pub extern "C" fn h_inode_split_parents() {
    match pick(3) {
        0 => inode_split_parents::<15>(),
        1 => inode_split_parents::<8>(),
        _ => inode_split_parents::<3>(),
    }
}
fn inode_split_parents<const W: usize>() {
    let p = pick(W as u64 + 1) as usize;
    let x = I::<W>::new(1);
    let kids: [Box<I<W>>; 17] = std::array::from_fn(|_| I::<W>::new(0));
    let kp = |i: usize| std::ptr::from_ref(&*kids[i]).cast_mut().cast::<u8>();
    let xp = std::ptr::from_ref(&*x).cast_mut().cast::<u8>();
    x.set_child(0, kp(0));
    for i in 0..W {
        x.assign(i, 10 * (i as u64 + 1), kp(i + 1));
    }
    x.set_nkeys(W as u8);
    for k in &kids {
        k.set_parent(xp);
    }
    let mut r = I::<W>::new(1);
    let rp = std::ptr::from_mut(&mut *r);
    let _ = x.split_into(&mut r, rp, p, any_u64(), kp(W + 1));
    for i in 0..=r.nkeys() {
        check(unsafe { &*r.child(i).cast::<I<W>>() }.parent() == rp.cast(), 1);
    }
    for i in 0..=x.nkeys() {
        let c = unsafe { &*x.child(i).cast::<I<W>>() };
        check(c.parent() == xp, 2);
    }
    check(r.height() == 1 && !r.children_are_leaves(), 3);
    cover(1);
}

/// Accessors of an internode: every key, child, count, height and flag is the one that was set.
#[unsafe(no_mangle)]
pub extern "C" fn h_inode_slots() {
    let mut ks = [0u64; 16];
    for k in &mut ks[..15] {
        *k = any_u64();
    }
    let h = any_u64() as u32;
    let root = pick(2) == 1;
    let x = if root { N::new_root(h) } else { N::new(h) };
    check(x.version().is_root() == root && x.is_root() == root && !x.version().is_leaf() && !x.version().is_locked(), 1);
    check(x.height() == h && x.children_are_leaves() == (h == 0), 2);
    check(x.is_empty() && x.nkeys() == 0 && !x.is_full() && x.parent().is_null(), 3);
    let n = pick(16) as usize;
    x.set_child(0, fake(0));
    for i in 0..n {
        x.assign(i, ks[i], fake(i + 1));
        x.inc_nkeys();
        check(x.nkeys() == i + 1, 4);
    }
    check(x.is_empty() == (n == 0) && x.is_full() == (n == 15) && x.size() == n, 5);
    if n > 0 && pick(2) == 1 {
        // one key, then one child, is replaced; nothing else moves
        let (i, k, c) = (pick(15) as usize, any_u64(), pick(n as u64 + 1) as usize);
        x.set_ikey(i, k);
        x.set_child(c, fake(77));
        for j in 0..n {
            check(x.ikey(j) == if j == i { k } else { ks[j] }, 6);
        }
        for j in 0..=n {
            check(x.child(j) == if j == c { fake(77) } else { fake(j) }, 7);
        }
        cover(3);
    } else if n > 0 {
        // a run of pairs is copied to any place of another node
        let m = pick(n as u64 + 1) as usize;
        let (s, d) = ([0, n - m][pick(2) as usize], [0, 15 - m, (15 - m) / 2][pick(3) as usize]);
        let y = N::new_for_split(x.version(), 3);
        check(y.version().is_locked() && y.version().is_splitting() && !y.version().is_root() && !y.version().is_leaf(), 8);
        check(y.height() == 3 && y.is_empty() && y.parent().is_null(), 9);
        for j in 0..15 {
            y.assign(j, j as u64, fake(200 + j));
        }
        y.shift_from(d, &x, s, m);
        for j in 0..15 {
            let inside = j >= d && j < d + m;
            let wk = if inside { ks[s + j - d] } else { j as u64 };
            let wc = if inside { fake(s + j - d + 1) } else { fake(200 + j) };
            check(y.ikey(j) == wk && y.child(j + 1) == wc, 10);
        }
        y.version().unlock_for_split();
        cover(1);
    }
    x.set_parent(fake(5));
    check(x.parent() == fake(5), 11);
    x.set_nkeys(n as u8 / 2);
    check(x.nkeys() == n / 2, 12);
    cover(2);
}

fn sorted16(n: usize) -> [u64; 16] {
    let mut k = [0u64; 16];
    for i in 0..n {
        k[i] = any_u64();
        if i > 0 {
            assume(k[i - 1] < k[i]);
        }
    }
    k
}
/// Routing in an internode: child i holds exactly the slices between key i-1 and key i.
#[unsafe(no_mangle)]
pub extern "C" fn h_inode_route() {
    let n = part(16) as usize;
    let ks = sorted16(n);
    let x = any_inode::<15>(n, &ks);
    let t = any_u64();
    let upper = |r: usize| r <= n && (r == 0 || ks[r - 1] <= t) && (r == n || t < ks[r]);
    match pick(4) {
        0 => check(upper(ksearch::upper_bound_internode::<S, 15>(t, &x)), 1),
        1 => check(upper(ksearch::upper_bound_internode_direct::<S, 15>(t, &x)), 2),
        2 => check(upper(ksearch::upper_bound_internode_generic::<S, N>(t, &*x)), 3),
        _ => {
            let r = x.find_insert_position(t);
            check(r <= n && (r == 0 || ks[r - 1] < t) && (r == n || t <= ks[r]), 4);
            if n > 0 {
                let i = pick(n as u64) as usize;
                check(x.compare_key(t, i) == t.cmp(&ks[i]), 5);
            }
        }
    }
    cover(1);
}

/// Slot accessors of a leaf: what was stored in a slot is read from that slot only.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_slots() {
    let leaf = L::new_boxed();
    let (i, j) = (pick(24) as usize, pick(24) as usize);
    let (a, b) = (any_u64(), any_u64());
    let lx = any_u64() as u8;
    leaf.set_ikey(i, a);
    leaf.set_ikey(j, b);
    leaf.set_keylenx(i, lx);
    check(leaf.ikey(j) == b && leaf.ikey(i) == if i == j { b } else { a }, 1);
    check(leaf.load_all_ikeys()[j] == b, 2);
    check(leaf.keylenx(i) == lx, 3);
    check(leaf.is_layer(i) == L::keylenx_is_layer(lx) && leaf.has_ksuf(i) == L::keylenx_has_ksuf(lx), 4);
    check(L::keylenx_is_layer(lx) == (lx >= 128) && L::keylenx_has_ksuf(lx) == (lx == 64), 5);
    check(leaf.ikey_bound() == leaf.ikey(0), 6);
    let prev = L::new_boxed();
    check(leaf.can_reuse_slot0(a), 7);
    leaf.set_prev(std::ptr::from_ref(&*prev).cast_mut());
    check(leaf.can_reuse_slot0(b) == (leaf.ikey(0) == b), 8);
    unsafe { leaf.store_key_data_for_cas(j, a ^ b, lx) };
    check(leaf.ikey(j) == a ^ b && leaf.keylenx(j) == lx, 9);
    check(i == j || leaf.ikey(i) == a && leaf.keylenx(i) == lx, 10);
    // the first entry in key order, whatever slot it is in
    let mut p = Permuter24::make_sorted(3);
    p.exchange(0, 1 + pick(2) as usize);
    leaf.set_permutation(p);
    check(leaf.keylenx_bound() == leaf.keylenx(p.get(0)) && leaf.size() == 3 && !leaf.is_empty() && !leaf.is_full(), 11);
    check(!leaf.has_ksuf_storage() && leaf.ksuf_or_empty(i).is_empty() && leaf.ksuf_compare(i, &[1]).is_none(), 12);
    leaf.set_parent(fake(3));
    check(leaf.parent() == fake(3) && !leaf.version().is_root(), 14);
    leaf.make_layer_root();
    check(leaf.parent().is_null() && leaf.version().is_root() && leaf.version().is_leaf(), 15);
    check(L::new_layer_root().version().is_root() && L::new_layer_root().parent().is_null(), 16);
    cover(1);
}

/// Suffixes of a leaf: assigned, cleared and compared per slot.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_suffix() {
    let tree = masstree::MassTree24Inline::<u64>::new();
    let g = tree.guard();
    let leaf = L::new_boxed();
    let mut model: [Option<([u8; 40], usize)>; 3] = [None; 3];
    let ik = any_u64();
    let first = part(3) as usize;
    for n in 0..3 {
        let s = if n == 0 { first } else { pick(3) as usize };
        let b: [u8; 40] = any_bytes();
        match pick(4) {
            0 => {
                unsafe { TreeLeafNode::clear_ksuf(&*leaf, s, &g) };
                model[s] = None;
            }
            k => {
                let l = [0usize, 3, 9, 40][k as usize];
                unsafe { TreeLeafNode::assign_ksuf(&*leaf, s, &b[..l], &g) };
                leaf.set_ikey(s, ik);
                leaf.set_keylenx(s, 64);
                model[s] = Some((b, l));
            }
        }
    }
    let q: [u8; 40] = any_bytes();
    let ql = [3usize, 9][pick(2) as usize];
    check(leaf.has_ksuf_storage() || model.iter().all(|m| m.is_none()), 6);
    if pick(2) == 1 {
        // compaction keeps the suffixes of the slots in use, and what readers still look at stays as it was
        let mut p = Permuter24::empty();
        let used = [1, 3][pick(2) as usize];
        for _ in 0..used {
            let _ = p.insert_from_back(0);
        }
        leaf.set_permutation(p);
        let skip = [0, 3][pick(2) as usize];
        let held: [Option<&[u8]>; 3] = std::array::from_fn(|s| TreeLeafNode::ksuf(&*leaf, s));
        let _ = unsafe { leaf.compact_ksuf(if skip < 3 { Some(skip) } else { None }, &g) };
        for s in 0..3 {
            if let (Some(h), Some((b, l))) = (held[s], &model[s]) {
                check(same(h, &b[..*l]), 7);
            }
            let active = (0..used).any(|i| p.get(i) == s) && s != skip;
            if !active {
                model[s] = None;
            }
        }
        cover(3);
    }
    for s in 0..3 {
        match &model[s] {
            Some((b, l)) => {
                let eq = same(&b[..*l], &q[..ql]);
                check(TreeLeafNode::ksuf(&*leaf, s).is_some_and(|x| same(x, &b[..*l])), 1);
                check(TreeLeafNode::ksuf_equals(&*leaf, s, &q[..ql]) == eq, 2);
                check(TreeLeafNode::ksuf_matches(&*leaf, s, ik, &q[..ql]) == eq, 3);
                check(TreeLeafNode::ksuf_match_result(&*leaf, s, 64, &q[..ql]) == eq as i32, 4);
                check(same(leaf.ksuf_or_empty(s), &b[..*l]), 8);
                let o = leaf.ksuf_compare(s, &q[..ql]);
                check(o.is_some_and(|o| (o == std::cmp::Ordering::Equal) == eq), 9);
                cover(1);
            }
            None => {
                check(TreeLeafNode::ksuf(&*leaf, s).is_none() && leaf.ksuf_or_empty(s).is_empty(), 5);
                check(leaf.ksuf_compare(s, &q[..ql]).is_none() && !TreeLeafNode::ksuf_equals(&*leaf, s, &q[..ql]), 10);
                cover(2);
            }
        }
    }
}

/// Matching a whole key against a slot: slice, length class and suffix together decide, for every length class.
#[unsafe(no_mangle)]
pub extern "C" fn h_leaf_match() {
    let tree = masstree::MassTree24Inline::<u64>::new();
    let g = tree.guard();
    let leaf = L::new_boxed();
    let s = [0usize, 7, 23][pick(3) as usize];
    let (a, b) = (any_u64(), any_u64());
    let (stored, asked) = (any_u64() as u8, any_u64() as u8);
    let (x, y): ([u8; 5], [u8; 5]) = (any_bytes(), any_bytes());
    let (lx, ly) = (pick(3) as usize * 2, pick(3) as usize * 2);
    let bag = pick(3);
    leaf.set_ikey(s, a);
    if bag == 2 {
        unsafe { TreeLeafNode::assign_ksuf(&*leaf, s, &x[..lx], &g) };
    } else if bag == 1 {
        unsafe { TreeLeafNode::assign_ksuf(&*leaf, (s + 1) % 24, &x[..lx], &g) };
    }
    leaf.set_keylenx(s, stored);
    let suf = stored == 64;
    let here = suf && bag == 2;
    let eq = here && same(&x[..lx], &y[..ly]);
    check(TreeLeafNode::ksuf_equals(&*leaf, s, &y[..ly]) == eq, 1);
    check(leaf.ksuf_compare(s, &y[..ly]).is_some() == here, 2);
    check((leaf.ksuf_compare(s, &y[..ly]) == Some(std::cmp::Ordering::Equal)) == eq, 3);
    check(TreeLeafNode::ksuf(&*leaf, s).is_some() == here && same(leaf.ksuf_or_empty(s), if here { &x[..lx] } else { &[] }), 4);
    let m = a == b && if ly == 0 { !suf } else { eq };
    check(TreeLeafNode::ksuf_matches(&*leaf, s, b, &y[..ly]) == m, 5);
    let r = if stored >= 128 {
        -8
    } else if suf {
        (ly > 0 && eq) as i32
    } else {
        (stored == asked && ly == 0) as i32
    };
    check(TreeLeafNode::ksuf_match_result(&*leaf, s, asked, &y[..ly]) == r, 6);
    check(leaf.ksuf_match_result(s, asked, &y[..ly]) == r && leaf.ksuf_matches(s, b, &y[..ly]) == m, 7);
    if r != 0 {
        cover(1);
    } else {
        cover(2);
    }
}
