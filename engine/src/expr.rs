//! Hash-consed bit-vector expression DAG with local simplification.
use crate::fx::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    Zext,
    Sext,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of the binary operations.
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::Udiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::Urem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::Sdiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::Srem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::Lshr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::Ashr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    /// per node: 1 = mentions a time variable, 2 = mentions an input
    pub fl: Vec<u8>,
    map: HashMap<Node, E>,
    pub vars: Vec<(String, u32)>,
}

/// Variable assignment; absent variables are 0.
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx::default();
        // id 0 reserved
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, imm: 0 });
        c.fl.push(0);
        c
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let g = |e: E| self.fl[e as usize];
        let f = match n.op {
            Op::Const => 0,
            Op::Var => {
                if self.vars[n.a as usize].0 == "T" {
                    1
                } else {
                    2
                }
            }
            Op::Extract | Op::Zext | Op::Sext => g(n.a),
            Op::Ite => g(n.a) | g(n.b) | g(n.c),
            _ => g(n.a) | g(n.b),
        };
        self.fl.push(f);
        self.nodes.push(n);
        self.map.insert(n, id);
        id
    }
    pub fn con(&mut self, w: u32, v: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        self.mk(Node { op: Op::Var, w: w as u16, a: id, b: 0, c: 0, imm: 0 })
    }
    fn raw2(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: 0, imm: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.con(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    /// Split into (width, Some(const) | None, expr) pieces, most significant first.
    fn pieces(&self, e: E, out: &mut Vec<(u32, Option<u128>, E, u32)>) {
        // piece: (width, const value, atom, lo offset in atom)
        let n = self.n(e);
        match n.op {
            Op::Const => out.push((n.w as u32, Some(n.imm), 0, 0)),
            Op::Concat => {
                self.pieces(n.a, out);
                self.pieces(n.b, out);
            }
            Op::Zext => {
                let iw = self.w(n.a);
                out.push((n.w as u32 - iw, Some(0), 0, 0));
                self.pieces(n.a, out);
            }
            _ => out.push((n.w as u32, None, e, 0)),
        }
    }

    fn bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let structural = |o: Op| matches!(o, Op::Const | Op::Concat | Op::Zext);
        if !structural(na.op) && !structural(nb.op) {
            return None;
        }
        if !(matches!(na.op, Op::Const) || matches!(nb.op, Op::Const))
            && !(structural(na.op) && structural(nb.op))
        {
            return None;
        }
        let w = na.w as u32;
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // const operand: split at runs of equal bits
        let runs = |v: u128, w: u32| {
            let mut r = vec![];
            let mut i = w;
            while i > 0 {
                let bit = (v >> (i - 1)) & 1;
                let mut j = i;
                while j > 0 && ((v >> (j - 1)) & 1) == bit {
                    j -= 1;
                }
                r.push((i - j, Some(if bit == 1 { mask(i - j) } else { 0 }), 0, 0));
                i = j;
            }
            r
        };
        let expand = |p: Vec<(u32, Option<u128>, E, u32)>| {
            let mut o = vec![];
            for x in p {
                match x.1 {
                    Some(v) => o.extend(runs(v, x.0)),
                    None => o.push(x),
                }
            }
            o
        };
        pa = expand(pa);
        pb = expand(pb);
        if pa.len() + pb.len() > 24 {
            return None;
        }
        // align
        let mut cuts = std::collections::BTreeSet::new();
        for p in [&pa, &pb] {
            let mut pos = w;
            for x in p.iter() {
                pos -= x.0;
                cuts.insert(pos);
            }
        }
        let split = |p: &Vec<(u32, Option<u128>, E, u32)>| {
            let mut o = vec![];
            let mut pos = w;
            for x in p.iter() {
                let lo = pos - x.0;
                let mut hi = pos;
                for &c in cuts.range(lo..pos).rev() {
                    let seg = hi - c;
                    o.push((seg, x.1.map(|v| (v >> (c - lo)) & mask(seg)), x.2, x.3 + (c - lo)));
                    hi = c;
                }
                pos = lo;
            }
            o
        };
        let sa = split(&pa);
        let sb = split(&pb);
        debug_assert_eq!(sa.len(), sb.len());
        let mut segs: Vec<(u32, Option<u128>, E, u32, bool)> = vec![]; // bool: inverted
        for (x, y) in sa.iter().zip(sb.iter()) {
            let r = match (x.1, y.1) {
                (Some(u), Some(v)) => (x.0, Some(fold(op, x.0, u, v)), 0, 0, false),
                (Some(u), None) | (None, Some(u)) => {
                    let s = if x.1.is_none() { x } else { y };
                    let ones = u == mask(x.0);
                    match op {
                        Op::And => {
                            if ones {
                                (s.0, None, s.2, s.3, false)
                            } else {
                                (s.0, Some(0), 0, 0, false)
                            }
                        }
                        Op::Or => {
                            if ones {
                                (s.0, Some(mask(s.0)), 0, 0, false)
                            } else {
                                (s.0, None, s.2, s.3, false)
                            }
                        }
                        Op::Xor => {
                            if ones {
                                (s.0, None, s.2, s.3, true)
                            } else {
                                (s.0, None, s.2, s.3, false)
                            }
                        }
                        _ => return None,
                    }
                }
                (None, None) => {
                    if x.2 == y.2 && x.3 == y.3 {
                        match op {
                            Op::Xor => (x.0, Some(0), 0, 0, false),
                            _ => (x.0, None, x.2, x.3, false),
                        }
                    } else {
                        return None;
                    }
                }
            };
            segs.push(r);
        }
        if segs.iter().any(|s| s.4) {
            // avoid endless recursion for plain negations
            return None;
        }
        let mut acc: Option<E> = None;
        for s in segs {
            let e = match s.1 {
                Some(v) => self.con(s.0, v),
                None => self.extract(s.2, s.3 + s.0 - 1, s.3),
            };
            acc = Some(match acc {
                None => e,
                Some(h) => self.concat(h, e),
            });
        }
        acc
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        debug_assert_eq!(na.w, nb.w, "width mismatch {:?} {:?} {:?}", op, na, nb);
        let rw = if is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.con(rw, v);
        }
        let m = mask(w);
        // canonical order for commutative
        let (a, b, ca, cb, na, nb) =
            if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
                && (ca.is_some() || (cb.is_none() && a > b))
            {
                (b, a, cb, ca, nb, na)
            } else {
                (a, b, ca, cb, na, nb)
            };
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Op::Add) = (cb, na.op) {
                    if let Some(x) = self.cv(na.b) {
                        let s = self.con(w, x.wrapping_add(y));
                        return self.bin(Op::Add, na.a, s);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.con(w, 0);
                }
                if let Some(y) = cb {
                    let s = self.con(w, 0u128.wrapping_sub(y));
                    return self.bin(Op::Add, a, s);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.con(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::Udiv => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.con(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Lshr, a, s);
                    }
                }
            }
            Op::Urem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.con(w, y - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(e) = self.bitwise(op, a, b) {
                    return e;
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(e) = self.bitwise(op, a, b) {
                    return e;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.con(w, 0);
                }
                if let (Some(y), Op::Xor) = (cb, na.op) {
                    if let Some(x) = self.cv(na.b) {
                        let s = self.con(w, x ^ y);
                        return self.bin(Op::Xor, na.a, s);
                    }
                }
                if w == 1 && cb == Some(1) {
                    match na.op {
                        Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                        Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                        Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                        Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                        Op::Ite => {
                            if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                                let x = self.not(na.b);
                                let y = self.not(na.c);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                if let Some(e) = self.bitwise(op, a, b) {
                    return e;
                }
            }
            Op::Shl | Op::Lshr | Op::Ashr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op != Op::Ashr {
                            return self.con(w, 0);
                        }
                    } else {
                        let k = y as u32;
                        if op == Op::Shl {
                            let x = self.extract(a, w - 1 - k, 0);
                            let z = self.con(k, 0);
                            return self.concat(x, z);
                        }
                        let x = self.extract(a, w - 1, k);
                        return if op == Op::Lshr { self.zext(x, w) } else { self.sext_e(x, w) };
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.con(1, 1);
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.con(1, 0);
                            }
                            let c = self.con(iw, y);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let (hc, lc) = (y >> lw, y & mask(lw));
                            // constant part mismatch
                            if let Some(v) = self.cv(na.a) {
                                if v != hc {
                                    return self.con(1, 0);
                                }
                                let c = self.con(lw, lc);
                                return self.bin(Op::Eq, na.b, c);
                            }
                            if let Some(v) = self.cv(na.b) {
                                if v != lc {
                                    return self.con(1, 0);
                                }
                                let c = self.con(hw, hc);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Ite => {
                            if self.cv(na.b).is_some()
                                || self.cv(na.c).is_some()
                                || matches!(self.n(na.c).op, Op::Ite)
                            {
                                let x = self.bin(Op::Eq, na.b, b);
                                let z = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cv(na.b) {
                                let c = self.con(w, x ^ y);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Add => {
                            if let Some(x) = self.cv(na.b) {
                                let c = self.con(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if a == b {
                    return self.con(1, (op == Op::Ule || op == Op::Sle) as u128);
                }
                let ite_const = |s: &Self, n: Node| {
                    n.op == Op::Ite
                        && (s.cv(n.b).is_some() || s.cv(n.c).is_some())
                };
                if cb.is_some() && ite_const(self, na) {
                    let x = self.bin(op, na.b, b);
                    let z = self.bin(op, na.c, b);
                    return self.ite(na.a, x, z);
                }
                if ca.is_some() && ite_const(self, nb) {
                    let x = self.bin(op, a, nb.b);
                    let z = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, z);
                }
                if op == Op::Ult {
                    if cb == Some(0) {
                        return self.con(1, 0);
                    }
                    if ca == Some(m) {
                        return self.con(1, 0);
                    }
                    if cb == Some(1) {
                        let z = self.con(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                }
                if op == Op::Ule {
                    if ca == Some(0) || cb == Some(m) {
                        return self.con(1, 1);
                    }
                    if cb == Some(0) {
                        return self.bin(Op::Eq, a, b);
                    }
                }
                if matches!(op, Op::Ult | Op::Ule) {
                    // zext comparisons
                    if let (Op::Zext, Some(y)) = (na.op, cb) {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.con(1, 1);
                        }
                        let c = self.con(iw, y);
                        return self.bin(op, na.a, c);
                    }
                    if let (Op::Zext, Some(x)) = (nb.op, ca) {
                        let iw = self.w(nb.a);
                        if x > mask(iw) {
                            return self.con(1, 0);
                        }
                        let c = self.con(iw, x);
                        return self.bin(op, c, nb.a);
                    }
                    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                        return self.bin(op, na.a, nb.a);
                    }
                }
            }
            _ => {}
        }
        self.raw2(op, rw, a, b)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, imm: 0 })
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let (wh, wl) = (nh.w as u32, nl.w as u32);
        if wh == 0 {
            return lo;
        }
        if wl == 0 {
            return hi;
        }
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.con(w, (x << wl) | y);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        // adjacent extracts of the same expression
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
            let (hh, hl) = ((nh.imm >> 16) as u32, (nh.imm & 0xffff) as u32);
            let (lh, ll) = ((nl.imm >> 16) as u32, (nl.imm & 0xffff) as u32);
            if hl == lh + 1 {
                return self.extract(nh.a, hh, ll);
            }
        }
        // extract adjacent to a whole expression prefix: hi = extract(x), lo = concat(extract(x), y)
        if nl.op == Op::Concat {
            let nla = self.n(nl.a);
            if nh.op == Op::Extract && nla.op == Op::Extract && nh.a == nla.a {
                let hl = (nh.imm & 0xffff) as u32;
                let lh = (nla.imm >> 16) as u32;
                if hl == lh + 1 {
                    let hh = (nh.imm >> 16) as u32;
                    let ll = (nla.imm & 0xffff) as u32;
                    let x = self.extract(nh.a, hh, ll);
                    return self.concat(x, nl.b);
                }
            }
        }
        // normalise left-nested: concat(concat(a,b),c) -> concat(a,concat(b,c))
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        if nh.op == Op::Zext {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.raw2(Op::Concat, w, hi, lo)
    }

    pub fn extract(&mut self, e: E, hi: u32, lo: u32) -> E {
        let n = self.n(e);
        let w = n.w as u32;
        debug_assert!(hi < w && lo <= hi, "extract {hi}:{lo} of width {w}");
        if lo == 0 && hi == w - 1 {
            return e;
        }
        let rw = hi - lo + 1;
        match n.op {
            Op::Const => return self.con(rw, n.imm >> lo),
            Op::Extract => {
                let l0 = (n.imm & 0xffff) as u32;
                return self.extract(n.a, hi + l0, lo + l0);
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if hi < wl {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= wl {
                    return self.extract(n.a, hi - wl, lo - wl);
                }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.con(rw, 0);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, rw);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
            }
            Op::Ite => {
                if (self.cv(n.b).is_some() || self.cv(n.c).is_some()) || rw <= 8 {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node {
            op: Op::Extract,
            w: rw as u16,
            a: e,
            b: 0,
            c: 0,
            imm: ((hi as u128) << 16) | lo as u128,
        })
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.con(w, v);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::Zext, w: w as u16, a: e, b: 0, c: 0, imm: 0 })
    }
    pub fn sext_e(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.con(w, sext(v, n.w as u32) as u128);
        }
        if n.op == Op::Zext {
            return self.zext(e, w);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let x = self.sext_e(n.b, w);
            let y = self.sext_e(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::Sext, w: w as u16, a: e, b: 0, c: 0, imm: 0 })
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, w - 1, 0)
    }

    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return m.vals.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        // iterative to survive deep chains (ite chains)
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let get = |y: E, memo: &HashMap<E, u128>| -> Option<u128> {
                let k = self.n(y);
                match k.op {
                    Op::Const => Some(k.imm),
                    Op::Var => Some(m.vals.get(&k.a).copied().unwrap_or(0) & mask(k.w as u32)),
                    _ => memo.get(&y).copied(),
                }
            };
            let v = match n.op {
                Op::Const => Some(n.imm),
                Op::Var => get(x, memo),
                Op::Ite => match get(n.a, memo) {
                    None => {
                        stack.push(n.a);
                        None
                    }
                    Some(c) => {
                        let t = if c != 0 { n.b } else { n.c };
                        let r = get(t, memo);
                        if r.is_none() {
                            stack.push(t);
                        }
                        r
                    }
                },
                Op::Extract | Op::Zext | Op::Sext => match get(n.a, memo) {
                    None => {
                        stack.push(n.a);
                        None
                    }
                    Some(v) => Some(match n.op {
                        Op::Extract => (v >> (n.imm & 0xffff)) & mask(n.w as u32),
                        Op::Zext => v,
                        _ => (sext(v, self.w(n.a)) as u128) & mask(n.w as u32),
                    }),
                },
                _ => match (get(n.a, memo), get(n.b, memo)) {
                    (Some(x), Some(y)) => Some(if n.op == Op::Concat {
                        (x << self.w(n.b)) | y
                    } else {
                        fold(n.op, self.w(n.a), x, y)
                    }),
                    (x, y) => {
                        if x.is_none() {
                            stack.push(n.a);
                        }
                        if y.is_none() {
                            stack.push(n.b);
                        }
                        None
                    }
                },
            };
            if let Some(v) = v {
                memo.insert(x, v);
                stack.pop();
            }
        }
        memo[&e]
    }

    /// Rebuild `e` with the given replacements (memo is pre-seeded).
    pub fn subst(&mut self, e: E, memo: &mut HashMap<E, E>) -> E {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            if matches!(n.op, Op::Const | Op::Var) || self.fl[x as usize] & 1 == 0 {
                memo.insert(x, x);
                stack.pop();
                continue;
            }
            if n.op == Op::Ite {
                // only the branch that matters
                let Some(&c) = memo.get(&n.a) else {
                    stack.push(n.a);
                    continue;
                };
                if let Some(v) = self.cv(c) {
                    let t = if v != 0 { n.b } else { n.c };
                    match memo.get(&t).copied() {
                        Some(r) => {
                            memo.insert(x, r);
                            stack.pop();
                        }
                        None => stack.push(t),
                    }
                    continue;
                }
            }
            let kids: &[E] = match n.op {
                Op::Extract | Op::Zext | Op::Sext => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for k in kids {
                if !memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: E| memo[&k];
            let r = match n.op {
                Op::Extract => {
                    let a = g(n.a);
                    self.extract(a, (n.imm >> 16) as u32, (n.imm & 0xffff) as u32)
                }
                Op::Zext => {
                    let a = g(n.a);
                    self.zext(a, n.w as u32)
                }
                Op::Sext => {
                    let a = g(n.a);
                    self.sext_e(a, n.w as u32)
                }
                Op::Ite => {
                    let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                    self.ite(a, b, c)
                }
                Op::Concat => {
                    let (a, b) = (g(n.a), g(n.b));
                    self.concat(a, b)
                }
                op => {
                    let (a, b) = (g(n.a), g(n.b));
                    self.bin(op, a, b)
                }
            };
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }
}
