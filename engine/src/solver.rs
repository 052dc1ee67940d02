//! Incremental QF_BV solving through the z3 C API.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_num_consts(c: P, m: P) -> c_uint;
    fn Z3_model_get_const_decl(c: P, m: P, i: c_uint) -> P;
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_decl_name(c: P, d: P) -> P;
    fn Z3_get_symbol_int(c: P, s: P) -> c_int;
    fn Z3_get_symbol_kind(c: P, s: P) -> c_int;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
}

#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    stack: Vec<E>,
    pub stats: Stats,
    one: P,
    #[allow(dead_code)]
    zero: P,
    sorts: crate::fx::HashMap<u32, P>,
}

impl Solver {
    pub fn new(heavy: bool, timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            let s = if heavy {
                let n = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let t = Z3_mk_bv_sort(c, 1);
            Z3_inc_ref(c, t);
            let o = CString::new("1").unwrap();
            let z = CString::new("0").unwrap();
            let one = Z3_mk_numeral(c, o.as_ptr(), t);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_numeral(c, z.as_ptr(), t);
            Z3_inc_ref(c, zero);
            Solver { c, s, ast: vec![], stack: vec![], stats: Stats::default(), one, zero, sorts: Default::default() }
        }
    }

    fn sort(&mut self, w: u32) -> P {
        if let Some(&p) = self.sorts.get(&w) {
            return p;
        }
        let p = unsafe { Z3_mk_bv_sort(self.c, w as c_uint) };
        unsafe { Z3_inc_ref(self.c, p) };
        self.sorts.insert(w, p);
        p
    }

    fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if (e as usize) < self.ast.len() && !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.ast.len() <= x as usize {
                self.ast.resize(cx.nodes.len().max(x as usize + 1), std::ptr::null_mut());
            }
            if !self.ast[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = cx.n(x);
            let kids: &[E] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Extract | Op::Zext | Op::Sext => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                if self.ast.len() <= k as usize || self.ast[k as usize].is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.c;
            let sort = self.sort(n.w.max(1) as u32);
            let g = |i: E| self.ast[i as usize];
            let r = unsafe {
                match n.op {
                    Op::Const => {
                        let s = CString::new(n.imm.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), sort)
                    }
                    Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), sort),
                    Op::Add => Z3_mk_bvadd(c, g(n.a), g(n.b)),
                    Op::Sub => Z3_mk_bvsub(c, g(n.a), g(n.b)),
                    Op::Mul => Z3_mk_bvmul(c, g(n.a), g(n.b)),
                    Op::Udiv => Z3_mk_bvudiv(c, g(n.a), g(n.b)),
                    Op::Urem => Z3_mk_bvurem(c, g(n.a), g(n.b)),
                    Op::Sdiv => Z3_mk_bvsdiv(c, g(n.a), g(n.b)),
                    Op::Srem => Z3_mk_bvsrem(c, g(n.a), g(n.b)),
                    Op::Shl => Z3_mk_bvshl(c, g(n.a), g(n.b)),
                    Op::Lshr => Z3_mk_bvlshr(c, g(n.a), g(n.b)),
                    Op::Ashr => Z3_mk_bvashr(c, g(n.a), g(n.b)),
                    Op::And => Z3_mk_bvand(c, g(n.a), g(n.b)),
                    Op::Or => Z3_mk_bvor(c, g(n.a), g(n.b)),
                    Op::Xor => Z3_mk_bvxor(c, g(n.a), g(n.b)),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let b = match n.op {
                            Op::Eq => Z3_mk_eq(c, g(n.a), g(n.b)),
                            Op::Ult => Z3_mk_bvult(c, g(n.a), g(n.b)),
                            Op::Ule => Z3_mk_bvule(c, g(n.a), g(n.b)),
                            Op::Slt => Z3_mk_bvslt(c, g(n.a), g(n.b)),
                            _ => Z3_mk_bvsle(c, g(n.a), g(n.b)),
                        };
                        Z3_inc_ref(c, b);
                        Z3_mk_ite(c, b, self.one, self.zero)
                    }
                    Op::Ite => {
                        let b = Z3_mk_eq(c, g(n.a), self.one);
                        Z3_inc_ref(c, b);
                        Z3_mk_ite(c, b, g(n.b), g(n.c))
                    }
                    Op::Concat => Z3_mk_concat(c, g(n.a), g(n.b)),
                    Op::Extract => Z3_mk_extract(
                        c,
                        (n.imm >> 16) as c_uint,
                        (n.imm & 0xffff) as c_uint,
                        g(n.a),
                    ),
                    Op::Zext => Z3_mk_zero_ext(c, n.w as u32 - cx.w(n.a), g(n.a)),
                    Op::Sext => Z3_mk_sign_ext(c, n.w as u32 - cx.w(n.a), g(n.a)),
                }
            };
            unsafe { Z3_inc_ref(c, r) };
            self.ast[x as usize] = r;
            st.pop();
        }
        self.ast[e as usize]
    }

    fn assert(&mut self, cx: &Ctx, e: E) {
        let a = self.tr(cx, e);
        unsafe {
            let b = Z3_mk_eq(self.c, a, self.one);
            Z3_inc_ref(self.c, b);
            Z3_solver_assert(self.c, self.s, b);
        }
    }

    /// Satisfiability of the conjunction `path` and `extra`.
    pub fn check(&mut self, cx: &Ctx, path: &[E], extra: E) -> Res {
        let t0 = Instant::now();
        let mut common = 0;
        while common < path.len() && common < self.stack.len() && path[common] == self.stack[common]
        {
            common += 1;
        }
        let drop = self.stack.len() - common;
        unsafe {
            if drop > 0 {
                Z3_solver_pop(self.c, self.s, drop as c_uint);
            }
        }
        self.stack.truncate(common);
        for &p in &path[common..] {
            unsafe { Z3_solver_push(self.c, self.s) };
            self.assert(cx, p);
            self.stack.push(p);
        }
        unsafe { Z3_solver_push(self.c, self.s) };
        self.assert(cx, extra);
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        let res = match r {
            1 => Res::Sat(self.model()),
            -1 => Res::Unsat,
            _ => Res::Unknown(unsafe {
                CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s))
                    .to_string_lossy()
                    .into_owned()
            }),
        };
        unsafe { Z3_solver_pop(self.c, self.s, 1) };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        match &res {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        res
    }

    fn model(&mut self) -> Model {
        let mut m = Model::default();
        unsafe {
            let md = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, md);
            let n = Z3_model_get_num_consts(self.c, md);
            for i in 0..n {
                let d = Z3_model_get_const_decl(self.c, md, i);
                let s = Z3_get_decl_name(self.c, d);
                if Z3_get_symbol_kind(self.c, s) != 0 {
                    continue;
                }
                let id = Z3_get_symbol_int(self.c, s);
                let v = Z3_model_get_const_interp(self.c, md, d);
                if v.is_null() {
                    continue;
                }
                Z3_inc_ref(self.c, v);
                let t = CStr::from_ptr(Z3_get_numeral_string(self.c, v));
                m.vals.insert(id as u32, t.to_str().unwrap().parse::<u128>().unwrap());
            }
            Z3_model_dec_ref(self.c, md);
        }
        m
    }
}
