//! Register liveness of one IR function (for state merging).
use crate::ir::{Callee, Func, I, O};

pub struct Live {
    /// live-in registers per instruction
    pub at: Vec<Vec<u32>>,
}

fn ro(o: &O, out: &mut Vec<u32>) {
    match o {
        O::R(r) => out.push(*r),
        O::C(_) => {}
        O::A(v) => v.iter().for_each(|x| ro(x, out)),
    }
}

/// Registers read, register written.
fn ud(i: &I, u: &mut Vec<u32>) -> Option<u32> {
    match i {
        I::Bin(_, d, _, a, b) | I::Icmp(_, d, _, a, b) => {
            ro(a, u);
            ro(b, u);
            Some(*d)
        }
        I::Cast(_, d, _, _, a) | I::Freeze(d, _, a) | I::Copy(d, a) | I::ExtractValue(d, a, _) => {
            ro(a, u);
            Some(*d)
        }
        I::Select(d, _, _, a, b, c) => {
            ro(a, u);
            ro(b, u);
            ro(c, u);
            Some(*d)
        }
        I::Load { dst, p, .. } => {
            ro(p, u);
            Some(*dst)
        }
        I::Store { v, p, .. } => {
            ro(v, u);
            ro(p, u);
            None
        }
        I::Gep { dst, base, idx, .. } => {
            ro(base, u);
            idx.iter().for_each(|x| ro(&x.0, u));
            Some(*dst)
        }
        I::Alloca { dst, .. } => Some(*dst),
        I::Call { dst, callee, args, .. } => {
            if let Callee::Val(o) = callee {
                ro(o, u);
            }
            args.iter().for_each(|x| ro(&x.1, u));
            *dst
        }
        I::CondBr(c, _, _) => {
            ro(c, u);
            None
        }
        I::Switch(_, c, _, _) => {
            ro(c, u);
            None
        }
        I::Ret(Some((_, o))) => {
            ro(o, u);
            None
        }
        I::Phi(d, _) => Some(*d),
        I::InsertValue(d, _, a, b, _) => {
            ro(a, u);
            ro(b, u);
            Some(*d)
        }
        I::Rmw { dst, p, v, .. } => {
            ro(p, u);
            ro(v, u);
            Some(*dst)
        }
        I::Cmpxchg { dst, p, e, n, .. } => {
            ro(p, u);
            ro(e, u);
            ro(n, u);
            Some(*dst)
        }
        I::ExtractElem(d, _, a, b) => {
            ro(a, u);
            ro(b, u);
            Some(*d)
        }
        I::InsertElem(d, _, a, b, c) => {
            ro(a, u);
            ro(b, u);
            ro(c, u);
            Some(*d)
        }
        I::Shuffle(d, _, a, b, _) => {
            ro(a, u);
            ro(b, u);
            Some(*d)
        }
        I::Br(_) | I::Ret(None) | I::Fence(..) | I::Unreachable => None,
        #[allow(unreachable_patterns)]
        _ => None,
    }
}

pub fn live(f: &Func) -> Live {
    let nb = f.blocks.len();
    let nw = (f.nregs as usize + 63) / 64;
    let n = f.code.len();
    // block extents
    let mut order: Vec<usize> = (0..nb).collect();
    order.sort_by_key(|&b| f.blocks[b]);
    let mut end = vec![n; nb];
    for w in order.windows(2) {
        end[w[0]] = f.blocks[w[1]] as usize;
    }
    let succ = |b: usize| -> Vec<u32> {
        let mut s = vec![];
        if end[b] == 0 {
            return s;
        }
        match &f.code[end[b] - 1] {
            I::Br(t) => s.push(*t),
            I::CondBr(_, x, y) => {
                s.push(*x);
                s.push(*y);
            }
            I::Switch(_, _, d, c) => {
                s.push(*d);
                c.iter().for_each(|x| s.push(x.1));
            }
            I::Call { next: Some(t), .. } => s.push(*t),
            _ => {}
        }
        s
    };
    // live-in after the phis of a block
    let mut li = vec![vec![0u64; nw]; nb];
    let phis = |s: usize, from: usize, set: &mut Vec<u64>| {
        let mut u = vec![];
        let mut k = f.blocks[s] as usize;
        while k < n {
            let I::Phi(_, inc) = &f.code[k] else { break };
            for (o, b) in inc.iter() {
                if *b as usize == from {
                    ro(o, &mut u);
                }
            }
            k += 1;
        }
        for r in u {
            set[r as usize / 64] |= 1 << (r % 64);
        }
    };
    let out = |b: usize, li: &Vec<Vec<u64>>| -> Vec<u64> {
        let mut o = vec![0u64; nw];
        for s in succ(b) {
            let s = s as usize;
            let mut x = li[s].clone();
            let mut k = f.blocks[s] as usize;
            while k < n {
                let I::Phi(d, _) = &f.code[k] else { break };
                x[*d as usize / 64] &= !(1 << (*d % 64));
                k += 1;
            }
            phis(s, b, &mut x);
            for i in 0..nw {
                o[i] |= x[i];
            }
        }
        o
    };
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            let mut x = out(b, &li);
            let mut k = end[b];
            while k > f.blocks[b] as usize {
                k -= 1;
                if matches!(f.code[k], I::Phi(..)) {
                    break;
                }
                let mut u = vec![];
                if let Some(d) = ud(&f.code[k], &mut u) {
                    x[d as usize / 64] &= !(1 << (d % 64));
                }
                for r in u {
                    x[r as usize / 64] |= 1 << (r % 64);
                }
            }
            if x != li[b] {
                li[b] = x;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let bits = |x: &Vec<u64>| -> Vec<u32> {
        (0..f.nregs).filter(|&r| x[r as usize / 64] >> (r % 64) & 1 == 1).collect()
    };
    let mut at = vec![vec![]; n];
    for b in 0..nb {
        let mut x = out(b, &li);
        let mut k = end[b];
        while k > f.blocks[b] as usize {
            k -= 1;
            if matches!(f.code[k], I::Phi(..)) {
                break;
            }
            let mut u = vec![];
            if let Some(d) = ud(&f.code[k], &mut u) {
                x[d as usize / 64] &= !(1 << (d % 64));
            }
            for r in u {
                x[r as usize / 64] |= 1 << (r % 64);
            }
            at[k] = bits(&x);
        }
    }
    Live { at }
}
