//! Value types of other sizes and alignments, in both storage modes, and the laws of the value slots.
use crate::*;
use masstree::{LeafValue, LeafValueIndex, MassTree24, MassTree24Inline, MassTreeIndex, ValueSlot};
use std::sync::Arc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

trait Any: Copy + PartialEq + Send + Sync + 'static {
    fn any() -> Self;
}
impl Any for () {
    fn any() {}
}
impl Any for u8 {
    fn any() -> u8 {
        any_u64() as u8
    }
}
impl Any for u128 {
    fn any() -> u128 {
        any_u128()
    }
}
impl Any for (u8, u32) {
    fn any() -> Self {
        (any_u64() as u8, any_u64() as u32)
    }
}
impl Any for [u64; 3] {
    fn any() -> Self {
        [any_u64(), any_u64(), any_u64()]
    }
}
impl Any for Option<u64> {
    fn any() -> Self {
        if pick(2) == 0 { None } else { Some(any_u64()) }
    }
}

fn types<V: Any>() {
    let base = live();
    {
        let a: MassTree24<V> = MassTree24::new();
        let b: MassTree24Inline<V> = MassTree24Inline::new();
        let mut c: MassTreeIndex<V> = MassTreeIndex::new();
        const L: [usize; 3] = [3, 8, 11];
        let bufs: [[u8; 11]; 2] = [any_bytes(), any_bytes()];
        let lens = [L[pick(3) as usize], L[pick(3) as usize]];
        let k = |i: usize| &bufs[i][..lens[i]];
        let eq = same(k(0), k(1));
        let mut cur: [Option<V>; 2] = [None, None];
        for i in [0, 1, 0] {
            let v = V::any();
            let old = cur[i];
            check(a.insert(k(i), v).is_ok_and(|o| o.map(|x| *x) == old), 1);
            check(b.insert(k(i), v).is_ok_and(|o| o == old), 2);
            check(c.insert(k(i), v).is_ok_and(|o| o == old), 3);
            cur[i] = Some(v);
            if eq {
                cur = [Some(v); 2];
            }
        }
        let (ga, gb) = (a.guard(), b.guard());
        for i in 0..2 {
            check(a.get(k(i)).map(|x| *x) == cur[i] && b.get(k(i)) == cur[i] && c.get(k(i)) == cur[i], 4);
            check(a.get_ref(k(i), &ga).copied() == cur[i] && b.get_ref(k(i), &gb).copied() == cur[i], 5);
            let p = a.get_ref(k(i), &ga).map_or(0, |r| r as *const V as usize);
            let q = b.get_ref(k(i), &gb).map_or(0, |r| r as *const V as usize);
            check(p % align_of::<V>() == 0 && q % align_of::<V>() == 0, 6);
        }
        let n = 2 - eq as usize;
        check(a.len() == n && b.len() == n && c.len() == n, 7);
        cover(1);
    }
    check(live() == base, 8);
}

/// The three maps with values of any size and alignment.
#[unsafe(no_mangle)]
pub extern "C" fn h_val_types() {
    match part(6) {
        0 => types::<()>(),
        1 => types::<u8>(),
        2 => types::<u128>(),
        3 => types::<(u8, u32)>(),
        4 => types::<[u64; 3]>(),
        _ => types::<Option<u64>>(),
    }
}

/// Values wider than a word are never seen half old and half new.
#[unsafe(no_mangle)]
pub extern "C" fn h_rw_wide() {
    let p = part(4);
    let weak = if p >= 2 { 512 } else { 0 };
    let v: [[u64; 3]; 3] = std::array::from_fn(|_| <[u64; 3]>::any());
    let base = live();
    let (mut x, mut y) = (None, None);
    {
        if p & 1 == 0 {
            let t: MassTree24Inline<[u64; 3]> = MassTree24Inline::new();
            let _ = t.insert(b"widekey0", v[0]);
            run2(
                weak,
                &mut || {
                    let _ = t.insert(b"widekey0", v[1]);
                    let _ = t.insert(b"widekey0", v[2]);
                },
                &mut || {
                    let g = t.guard();
                    x = t.get_with_guard(b"widekey0", &g);
                    y = t.get_ref(b"widekey0", &g).copied();
                },
            );
        } else {
            let t: MassTree24<[u64; 3]> = MassTree24::new();
            let _ = t.insert(b"widekey0", v[0]);
            run2(
                weak,
                &mut || {
                    let _ = t.insert(b"widekey0", v[1]);
                    let _ = t.insert(b"widekey0", v[2]);
                },
                &mut || {
                    let g = t.guard();
                    x = t.get_ref(b"widekey0", &g).copied();
                    y = t.get_ref(b"widekey0", &g).copied();
                },
            );
        }
    }
    // the first read is one of the values, the second the same or a later one
    let at = |r: Option<[u64; 3]>, i: usize| r.is_some_and(|r| (r[0] ^ v[i][0]) | (r[1] ^ v[i][1]) | (r[2] ^ v[i][2]) == 0);
    let mut ok = false;
    for i in 0..3 {
        for j in i..3 {
            ok |= at(x, i) & at(y, j);
        }
    }
    check(ok, 1);
    if at(x, 0) & at(y, 2) & !at(y, 0) & !at(x, 2) {
        cover(1);
    }
    check(live() == base, 2);
}

struct D<'a>(u64, &'a AtomicU32);
impl Drop for D<'_> {
    fn drop(&mut self) {
        self.1.fetch_add(1, Relaxed);
    }
}

/// Moving values into, out of and between slots, raw pointers and handles: contents kept, ownership exact.
#[unsafe(no_mangle)]
pub extern "C" fn h_slot_laws() {
    let base = live();
    let c: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
    let n = |i: usize| c[i].load(Relaxed);
    let (a, b) = (any_u64(), any_u64());
    let p = any_u64() as usize as *mut u8;
    if part(2) == 0 {
        type S<'a> = LeafValue<D<'a>>;
        let o = S::into_output(D(a, &c[0]));
        let kept = Arc::clone(&o);
        let mut s = S::from_output(o);
        check(s.is_value() && !s.is_empty() && !s.is_layer() && s.try_layer().is_none(), 1);
        check(Arc::strong_count(&kept) == 2 && s.try_get().is_some_and(|x| Arc::ptr_eq(&x, &kept)), 2);
        let old = s.swap_output(Arc::new(D(b, &c[1])));
        check(old.is_some_and(|x| Arc::ptr_eq(&x, &kept)), 3);
        check(Arc::strong_count(&kept) == 1 && s.try_get().is_some_and(|x| x.0 == b), 4);
        let t = s.clone();
        let took = s.take();
        check(s.is_empty() && !s.is_value() && s.try_get().is_none() && took.try_get().is_some_and(|x| x.0 == b), 5);
        check(n(1) == 0, 6);
        drop(took);
        check(n(1) == 0 && t.as_value().0 == b && t.clone_arc().0 == b, 7);
        check(t.try_as_value().is_some() && t.try_clone_arc().is_some() && t.try_as_layer().is_none(), 17);
        drop(t);
        check(n(1) == 1, 8);
        check(s.swap_output(kept.clone()).is_none() && s.is_value(), 9);
        s.set_layer(p);
        check(s.is_layer() && s.try_layer() == Some(p) && s.try_get().is_none() && s.as_layer() == p, 10);
        check(S::layer(p).try_layer() == Some(p) && Arc::strong_count(&kept) == 1, 11);
        // raw handles
        let raw = S::output_to_raw(&kept);
        check(Arc::strong_count(&kept) == 2 && raw == Arc::as_ptr(&kept) as *mut u8, 12);
        let again = unsafe { S::output_from_raw(raw) };
        check(Arc::ptr_eq(&again, &kept) && Arc::strong_count(&kept) == 3, 13);
        let raw2 = S::output_consume_to_raw(again);
        check(raw2 == raw && Arc::strong_count(&kept) == 3, 14);
        unsafe {
            S::cleanup_value_ptr(raw);
            check(Arc::strong_count(&kept) == 2 && n(0) == 0, 15);
            S::cleanup_value_ptr(raw2);
        }
        check(Arc::strong_count(&kept) == 1 && kept.0 == a, 16);
        drop(kept);
        check(n(0) == 1, 18);
    } else {
        type S = LeafValueIndex<u64>;
        let mut s = S::from_output(S::into_output(a));
        check(s.is_value() && !s.is_empty() && !s.is_layer() && s.try_get() == Some(a) && s.try_layer().is_none(), 1);
        check(s.value() == a && s.try_value() == Some(a) && s.try_as_layer().is_none(), 2);
        check(s.swap_output(b) == Some(a) && s.try_get() == Some(b), 3);
        let took = s.take();
        check(s.is_empty() && !s.is_value() && took.try_get() == Some(b) && s.swap_output(a).is_none(), 4);
        s.set_layer(p);
        check(s.is_layer() && s.try_layer() == Some(p) && s.try_get().is_none() && s.as_layer() == p, 5);
        check(S::layer(p).try_layer() == Some(p), 6);
        let live0 = live();
        let (r1, r2) = (S::output_to_raw(&a), S::output_consume_to_raw(b));
        check(r1 != r2 && live() == live0 + 2, 7);
        unsafe {
            check(S::output_from_raw(r1) == a && S::output_from_raw(r1) == a && S::output_from_raw(r2) == b, 8);
            S::cleanup_value_ptr(r1);
            check(S::output_from_raw(r2) == b, 9);
            S::cleanup_value_ptr(r2);
        }
        check(live() == live0, 10);
    }
    check(live() == base, 20);
    cover(1);
}
