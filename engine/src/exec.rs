//! Symbolic execution of LLVM IR: path exploration, memory, threads.
use crate::expr::*;
use crate::ir::{CastK, Callee, Func, Module, Ord, Pred, RmwK, Ty, I, O};
use crate::mem::*;
use crate::solver::{Res, Solver};
use crate::fx::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub pc: u32,
    pub cur: u32,
    pub regs: Vec<V>,
    pub ret: Option<u32>,
    pub next: Option<u32>,
    pub stk: usize,
}

#[derive(Clone)]
pub struct Th {
    pub frames: Vec<Rc<Frame>>,
    pub hooks: u64,
    pub done: bool,
    pub choice_at: u64,
    pub retire_at: u64,
    /// nanoseconds this thread's clock shows; every reading advances it by 300 us
    pub clock: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Seq,
    Writer,
    Reader,
    Inter,
}

#[derive(Clone)]
pub struct LogEnt {
    pub hook: u64,
    pub tid: usize,
    pub addr: u64,
    pub old: Vec<u8>,
    pub olds: Vec<E>,
    pub free: bool,
    /// weak memory: a reader that acquires this store sees this many first stores
    pub rel: u32,
}

/// What a reader on a weakly ordered processor is bound to see.
#[derive(Clone, Default)]
pub struct Weak {
    pub on: bool,
    /// stores before this one are visible (acquired)
    pub acq: u32,
    /// what an acquire fence would add
    pub pend: u32,
    /// per byte: index after the last store read (coherence)
    pub view: BTreeMap<u64, u32>,
    pub last: BTreeMap<u64, u32>,
    /// writer: stores before its last release fence
    pub fence: u32,
    /// reader accesses whose value is not the newest: (hook, stores visible)
    pub sched: Vec<(u64, u32)>,
    /// choices of the pieces of the current instruction
    pub force: Vec<u32>,
    pub pos: usize,
    pub redo: bool,
    pub hook0: u64,
    /// per retirement: does the reader's guard hold it
    pub held: Vec<bool>,
    pub seen: Vec<(u128, u32, u64)>,
    pub own: BTreeSet<u64>,
    pub note: String,
}

#[derive(Clone)]
pub struct TVar {
    pub e: E,
    pub var: u32,
    pub lo: u32,
    pub hi: u32,
    pub hook: u64,
}

#[derive(Clone)]
pub struct Retired {
    pub ptr: u64,
    pub f: u64,
    pub holders: Vec<u64>,
}
#[derive(Clone, Default)]
pub struct Coll {
    pub active: Vec<u64>,
    pub retired: Vec<Retired>,
}
/// Globals from here on are a thread's own copies.
const TLS_ID: usize = 1 << 19;
const READER_GID: u64 = u64::MAX;

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub e: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Th>,
    pub cur: usize,
    pub mem: Mem,
    /// constraints on inputs
    pub pc: Vec<E>,
    /// constraints on time variables: an ordered chain with bounds
    pub pct: Vec<E>,
    pub epoch: u64,
    pub chk: (usize, u32, u64),
    pub visited: Vec<(u128, u32)>,
    pub model: Model,
    pub memo: HashMap<E, u128>,
    pub inputs: Vec<Input>,
    pub mode: Mode,
    pub nguard: u64,
    pub colls: Vec<Coll>,
    // mode A
    pub log: Rc<Vec<LogEnt>>,
    pub logidx: Rc<HashMap<u64, Vec<u32>>>,
    pub tv: Vec<TVar>,
    pub tnext: usize,
    pub overlay: BTreeMap<u64, (u32, E)>,
    pub last_t: BTreeMap<u64, E>,
    pub pause_pending: bool,
    /// jumps since the thread was last interrupted, and a state to compare with
    pub jumps: u64,
    pub mark: Option<((usize, usize, u32, usize), u64, u128)>,
    pub stalled: bool,
    pub held_le: Vec<(u32, usize, u64)>,
    pub held_gt: Vec<u32>,
    /// the reader's moment (index into `tv`) of entering its guard
    pub entered_at: usize,
    pub reader_entered: bool,
    pub pauses: u32,
    /// a thread that waits without the others getting to run: not yet, now, over; since which of its accesses
    pub stub: u8,
    pub stub_at: (usize, u64),
    pub f1: (u64, V),
    pub weak: Weak,
    // mode B
    pub preempt: u32,
    pub maxpre: u32,
    /// only thread 1 can be preempted, thread 2 runs as one step
    pub asym: bool,
    /// two writers (threads 1 and 3) that are interleaved first, then a reader (thread 2) against both
    pub three: bool,
    pub segs: Vec<(usize, u64)>,
    pub stores: u64,
    pub pause_mark: [(u64, u32); 4],
    // misc
    pub steps: u64,
    pub expect_panic: Option<u64>,
    pub retry: u32,
    pub depth: u32,
    pub nassert: u64,
    /// what the processor offers: 0 baseline x86-64, 1 SSE4.1, 2 AVX2
    pub cpu: u32,
    pub panicked: bool,
    pub model_stale: bool,
}

/// Feature word of std_detect: sse4.1 is bit 10, avx2 bit 15.
pub fn cpu_features(level: u32) -> u128 {
    [0xff, 0x7ff, 0xffff][level.min(2) as usize]
}

#[derive(Debug)]
pub enum Stop {
    Dead,
    Done,
    Viol,
    Merged,
    Fatal(String),
    Limit(String),
}
type Rs<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub at: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, Vec<u128>)>,
    pub segs: Vec<(usize, u64)>,
    pub detail: String,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(String, Vec<u128>)>,
    pub segs: Vec<(usize, u64)>,
    pub asserts: u64,
    pub panics: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub memchecks: u64,
    pub tvars: u64,
    pub restricted: u64,
    pub switches: u64,
    pub rounds: u64,
    pub max_log: u64,
    pub unknown: u64,
    pub covers: BTreeMap<u64, u64>,
    pub funcs: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub panics_expected: u64,
    pub merged: u64,
    pub merge_points: u64,
    pub time_splits: u64,
}

pub struct Opts {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_secs: f64,
    pub preempt: i64,
    pub max_viol: usize,
    pub verbose: bool,
    pub no_merge_b: bool,
    pub part: u64,
    /// explore waits in which no other thread gets to run
    pub stub: bool,
}

pub struct Eng<'m> {
    pub m: &'m Module,
    pub cx: Ctx,
    pub sol: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub opts: Opts,
    pub viols: Vec<Violation>,
    pub seen: HashSet<(String, u64, String)>,
    pub conflict: HashSet<u64>,
    pub acc: HashMap<u64, u8>,
    pub start: Instant,
    pub incomplete: Option<String>,
    pub fatal: Option<String>,
    pub addr: u64,
    pub nvar: u64,
    times: Vec<E>,
    merge: HashMap<u128, u32>,
    wmerge: HashMap<u128, Vec<(u32, u32, Vec<(u64, u32)>)>>,
    ord: Ord,
    rmw: bool,
    lives: HashMap<usize, Rc<crate::live::Live>>,
    epochs: u64,
    gcache: HashMap<u32, Obj>,
    icache: HashMap<(usize, u32), Rc<str>>,
}

/// Orderings as stubs/portable-atomic passes them.
fn ord_of(o: u128) -> Ord {
    [Ord::Relaxed, Ord::Release, Ord::Acquire, Ord::AcqRel, Ord::SeqCst][o.min(4) as usize]
}

fn bytes_of(w: u32) -> usize {
    ((w + 7) / 8) as usize
}

impl<'m> Eng<'m> {
    pub fn new(m: &'m Module, opts: Opts, heavy: bool, timeout_ms: u32) -> Self {
        Eng {
            m,
            cx: Ctx::new(),
            sol: Solver::new(heavy, timeout_ms),
            work: vec![],
            st: Stats::default(),
            opts,
            viols: vec![],
            seen: HashSet::default(),
            conflict: HashSet::default(),
            acc: HashMap::default(),
            start: Instant::now(),
            incomplete: None,
            fatal: None,
            addr: 0,
            nvar: 0,
            times: vec![],
            merge: HashMap::default(),
            wmerge: HashMap::default(),
            ord: Ord::NA,
            rmw: false,
            lives: HashMap::default(),
            epochs: 0,
            gcache: HashMap::default(),
            icache: HashMap::default(),
        }
    }

    fn initial(&mut self, name: &str) -> Result<State, String> {
        let f = self.m.func(name)?.ok_or_else(|| format!("no function {name}"))?;
        self.st.funcs.insert(name.to_string());
        let mut mem = Mem::default();
        mem.alloc(0, 8, 8, false); // make thread 0 spaces
        mem.heap[0].get_mut(0).life = Life::Freed;
        mem.live = 0;
        let fr = Frame { pc: 0, cur: 0, regs: vec![V::U; f.nregs as usize], ret: None, next: None, stk: 0, f };
        Ok(State {
            th: vec![Th { frames: vec![Rc::new(fr)], hooks: 0, done: false, choice_at: u64::MAX, retire_at: u64::MAX, clock: 0 }],
            cur: 0,
            mem,
            pc: vec![],
            pct: vec![],
            epoch: 0,
            chk: (0, 0, 0),
            visited: vec![],
            cpu: 2,
            model: Model::default(),
            memo: HashMap::default(),
            inputs: vec![],
            mode: Mode::Seq,
            nguard: 1,
            colls: vec![],
            log: Rc::new(vec![]),
            logidx: Rc::new(HashMap::default()),
            tv: vec![],
            overlay: BTreeMap::new(),
            last_t: BTreeMap::new(),
            tnext: 0,
            stub: 0,
            stub_at: (0, 0),
            pause_pending: false,
            jumps: 0,
            mark: None,
            stalled: false,
            held_le: vec![],
            held_gt: vec![],
            entered_at: usize::MAX,
            reader_entered: false,
            pauses: 0,
            f1: (0, V::U),
            weak: Weak::default(),
            preempt: 0,
            three: false,
            maxpre: 0,
            asym: false,
            segs: vec![],
            stores: 0,
            pause_mark: [(0, 0); 4],
            steps: 0,
            expect_panic: None,
            retry: 0,
            depth: 0,
            nassert: 0,
            panicked: false,
            model_stale: false,
        })
    }

    pub fn explore(&mut self, name: &str) -> Result<(), String> {
        let mut n = 0u32;
        loop {
            self.st.rounds += 1;
            self.merge.clear();
            self.wmerge.clear();
            let s = self.initial(name)?;
            self.work.push(s);
            let n0 = self.conflict.len();
            while let Some(s) = self.work.pop() {
                self.run(s);
                if self.fatal.is_some() || self.incomplete.is_some() {
                    return Ok(());
                }
                if self.start.elapsed().as_secs_f64() > self.opts.max_secs {
                    self.incomplete = Some(format!("time limit, {} states pending", self.work.len()));
                    return Ok(());
                }
                n += 1;
                if n % 256 == 0 && rss_mb() > MAX_MB {
                    self.incomplete = Some(format!("memory limit ({MAX_MB} MB), {} states pending", self.work.len()));
                    return Ok(());
                }
                if self.st.paths > self.opts.max_paths {
                    self.incomplete = Some(format!("path limit, {} states pending", self.work.len()));
                    return Ok(());
                }
                if self.viols.len() >= self.opts.max_viol {
                    return Ok(());
                }
            }
            // conflict set of the interleaving mode
            for (a, f) in &self.acc {
                let (r1, w1, r2, w2) = (f & 1 != 0, f & 2 != 0, f & 4 != 0, f & 8 != 0);
                if (w1 && (r2 || w2)) || (w2 && (r1 || w1)) {
                    self.conflict.insert(*a);
                }
            }
            if self.conflict.len() == n0 {
                return Ok(());
            }
            if !self.viols.is_empty() {
                return Ok(());
            }
        }
    }

    fn run(&mut self, mut st: State) {
        let mut k = 0u32;
        loop {
            k += 1;
            if k & 0x3fff == 0 && rss_mb() > MAX_MB {
                self.incomplete = Some(format!("memory limit ({MAX_MB} MB), {} states pending", self.work.len()));
                return;
            }
            if k & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.opts.max_secs {
                self.incomplete = Some(format!("time limit inside a path, {} states pending", self.work.len()));
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => {
                    match e {
                        Stop::Dead => self.st.dead += 1,
                        Stop::Done => {
                            self.st.paths += 1;
                            if self.st.paths.is_power_of_two() && !st.model_stale {
                                let s = self.sample(&st);
                                if self.st.samples.len() >= 6 {
                                    self.st.samples.remove(1);
                                }
                                self.st.samples.push(s);
                            }
                        }
                        Stop::Viol => self.st.paths += 1,
                        Stop::Merged => self.st.merged += 1,
                        Stop::Fatal(s) => {
                            let tr = self.trace(&st).join(" <- ");
                            self.fatal = Some(format!("{s} at {tr}"));
                        }
                        Stop::Limit(s) => {
                            let tr = self.trace(&st).join(" <- ");
                            self.incomplete = Some(format!("{s} at {tr}"));
                        }
                    }
                    return;
                }
            }
        }
    }

    fn values(&mut self, st: &State, m: &Model) -> Vec<(String, Vec<u128>)> {
        let mut memo = HashMap::default();
        st.inputs
            .iter()
            .map(|i| (i.name.clone(), i.e.iter().map(|&e| self.cx.eval(e, m, &mut memo)).collect()))
            .collect()
    }

    /// The schedule a model stands for, as segments for the native runtime.
    fn schedule(&mut self, st: &State, m: &Model) -> Vec<(usize, u64)> {
        let mut segs = st.segs.clone();
        if st.mode == Mode::Inter {
            // current segment continues
            segs.push((st.cur, u64::MAX));
        }
        if st.weak.on {
            // 16 h: a reader access, 17 w: it sees the writer's stores up to its access w; 18 b: guard of the reader
            // holds the object retired next; then the writer runs as a whole, then the reader
            let mut segs: Vec<(usize, u64)> = vec![(19, 0)];
            segs.extend(st.weak.held.iter().map(|&b| (18, b as u64)));
            for &(h, t) in &st.weak.sched {
                let w = if (t as usize) < st.log.len() { st.log[t as usize].hook } else { u64::MAX };
                segs.push((16, h));
                segs.push((17, w));
            }
            segs.push((1, u64::MAX));
            return segs;
        }
        if st.mode == Mode::Reader || (!st.tv.is_empty()) {
            let mut memo = HashMap::default();
            let wsegs = std::mem::take(&mut segs);
            let mut at = 0;
            for (i, t) in st.tv.iter().enumerate() {
                let v = self.cx.eval(t.e, m, &mut memo) as usize;
                segs.push((2, t.hook));
                // the access itself happens inside the next reader segment
                let held = st.held_le.first().filter(|k| i == st.entered_at && k.0 as usize == v);
                let (tid, stop) = match held {
                    Some(&(_, tid, h)) => (tid, h),
                    None if v < st.log.len() => (st.log[v].tid, st.log[v].hook),
                    None => (0, 0),
                };
                if !st.three {
                    segs.push((1, if tid == 0 { u64::MAX } else { stop }));
                    continue;
                }
                // the writers' own segments up to the one that holds that store
                while at < wsegs.len() && !(wsegs[at].0 == tid && wsegs[at].1 > stop) {
                    segs.push(wsegs[at]);
                    at += 1;
                }
                if at < wsegs.len() {
                    segs.push((tid, stop));
                }
            }
            if st.three {
                segs.push((2, u64::MAX));
                segs.extend_from_slice(&wsegs[at..]);
            }
        }
        segs
    }

    fn sample(&mut self, st: &State) -> Sample {
        let m = st.model.clone();
        Sample {
            inputs: self.values(st, &m),
            segs: self.schedule(st, &m),
            asserts: st.nassert,
            panics: st.expect_panic.is_some() && st.panicked,
        }
    }

    pub fn trace(&self, st: &State) -> Vec<String> {
        st.th[st.cur].frames.iter().rev().take(12).map(|f| format!("{}#{}", demangle(&f.f.name), f.pc)).collect()
    }

    // ---------------------------------------------------------------- solver

    fn ev(&mut self, st: &mut State, e: E) -> u128 {
        if let Some(v) = self.cx.cv(e) {
            return v;
        }
        self.cx.eval(e, &st.model, &mut st.memo)
    }

    /// Satisfiability of the path condition with `extra`. Time constraints form an ordered chain with
    /// bounds, satisfiable by construction and independent of the inputs, so they are passed on only
    /// when `extra` mentions a time variable.
    fn query(&mut self, st: &State, extra: E) -> Rs<Option<Model>> {
        let r = if self.cx.fl[extra as usize] & 1 != 0 {
            let mut all = st.pc.clone();
            all.extend_from_slice(&st.pct);
            self.sol.check(&self.cx, &all, extra)
        } else {
            self.sol.check(&self.cx, &st.pc, extra)
        };
        match r {
            Res::Sat(mut m) => {
                if self.cx.fl[extra as usize] & 1 == 0 {
                    for t in &st.tv {
                        m.vals.insert(t.var, t.lo as u128);
                    }
                } else {
                    let mut last = 0;
                    for t in &st.tv {
                        last = *m.vals.entry(t.var).or_insert(last.max(t.lo as u128));
                    }
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown(s) => {
                self.st.unknown += 1;
                Err(Stop::Limit(format!("solver gave no answer: {s}")))
            }
        }
    }

    /// Whether a time atom (T <= k and the like) is fixed by the bounds.
    fn atom(&self, st: &State, c: E) -> Option<Option<bool>> {
        let n = self.cx.n(c);
        if n.op == Op::Eq && self.cx.fl[n.a as usize] == 1 && self.cx.cv(n.b) == Some(0) {
            let na = self.cx.n(n.a);
            if na.op != Op::Var {
                return None;
            }
            let t = st.tv.iter().rev().find(|t| t.var == na.a)?;
            return Some(if t.hi == 0 {
                Some(true)
            } else if t.lo > 0 {
                Some(false)
            } else {
                None
            });
        }
        if !matches!(n.op, Op::Ult | Op::Ule) {
            return None;
        }
        let (na, nb) = (self.cx.n(n.a), self.cx.n(n.b));
        let s = (n.op == Op::Ult) as i64;
        if na.op == Op::Var && self.cx.fl[n.a as usize] == 1 {
            let k = self.cx.cv(n.b)? as i64 - s;
            let t = st.tv.iter().rev().find(|t| t.var == na.a)?;
            return Some(if (t.hi as i64) <= k {
                Some(true)
            } else if (t.lo as i64) > k {
                Some(false)
            } else {
                None
            });
        }
        if nb.op == Op::Var && self.cx.fl[n.b as usize] == 1 {
            let k = self.cx.cv(n.a)? as i64 + s;
            let t = st.tv.iter().rev().find(|t| t.var == nb.a)?;
            return Some(if (t.lo as i64) >= k {
                Some(true)
            } else if (t.hi as i64) < k {
                Some(false)
            } else {
                None
            });
        }
        None
    }

    /// Simplify under the time bounds; second: a time atom that is still open.
    fn under(&mut self, st: &State, e: E) -> (E, Option<E>) {
        if self.cx.fl[e as usize] & 1 == 0 {
            return (e, None);
        }
        let mut memo: HashMap<E, E> = HashMap::default();
        let mut seen = HashSet::default();
        let mut todo = vec![e];
        let mut any = false;
        while let Some(x) = todo.pop() {
            if self.cx.fl[x as usize] & 1 == 0 || !seen.insert(x) {
                continue;
            }
            match self.atom(st, x) {
                Some(Some(b)) => {
                    let k = self.cx.con(1, b as u128);
                    memo.insert(x, k);
                    any = true;
                }
                Some(None) => {}
                None => {
                    let n = self.cx.n(x);
                    match n.op {
                        Op::Const | Op::Var => {}
                        Op::Extract | Op::Zext | Op::Sext => todo.push(n.a),
                        Op::Ite => todo.extend([n.a, n.b, n.c]),
                        _ => todo.extend([n.a, n.b]),
                    }
                }
            }
        }
        let r = if any { self.cx.subst(e, &mut memo) } else { e };
        // an open atom of the simplified expression
        let mut seen = HashSet::default();
        let mut todo = vec![r];
        while let Some(x) = todo.pop() {
            if self.cx.fl[x as usize] & 1 == 0 || !seen.insert(x) {
                continue;
            }
            if let Some(None) = self.atom(st, x) {
                return (r, Some(x));
            }
            let n = self.cx.n(x);
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::Zext | Op::Sext => todo.push(n.a),
                Op::Ite => todo.extend([n.b, n.c, n.a]),
                _ => todo.extend([n.b, n.a]),
            }
        }
        (r, None)
    }

    /// Truth value forced by the syntactic path condition / time intervals.
    fn quick(&mut self, st: &State, c: E, depth: u32) -> Option<bool> {
        if let Some(v) = self.cx.cv(c) {
            return Some(v != 0);
        }
        let n = self.cx.n(c);
        match n.op {
            Op::Ult | Op::Ule if !st.tv.is_empty() => {
                let na = self.cx.n(n.a);
                let nb = self.cx.n(n.b);
                if na.op == Op::Var {
                    if let Some(k) = self.cx.cv(n.b) {
                        if let Some(t) = st.tv.iter().rev().find(|t| t.var == na.a) {
                            let k = if n.op == Op::Ult { k as i64 - 1 } else { k as i64 };
                            if (t.hi as i64) <= k {
                                return Some(true);
                            }
                            if (t.lo as i64) > k {
                                return Some(false);
                            }
                        }
                    }
                } else if nb.op == Op::Var {
                    if let Some(k) = self.cx.cv(n.a) {
                        if let Some(t) = st.tv.iter().rev().find(|t| t.var == nb.a) {
                            let k = if n.op == Op::Ult { k as i64 + 1 } else { k as i64 };
                            if (t.lo as i64) >= k {
                                return Some(true);
                            }
                            if (t.hi as i64) < k {
                                return Some(false);
                            }
                        }
                    }
                }
            }
            Op::And if n.w == 1 && depth < 24 => {
                let a = self.quick(st, n.a, depth + 1);
                if a == Some(false) {
                    return a;
                }
                let b = self.quick(st, n.b, depth + 1);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return Some(true);
                }
            }
            Op::Or if n.w == 1 && depth < 24 => {
                let a = self.quick(st, n.a, depth + 1);
                if a == Some(true) {
                    return a;
                }
                let b = self.quick(st, n.b, depth + 1);
                if b == Some(true) {
                    return b;
                }
                if a == Some(false) && b == Some(false) {
                    return Some(false);
                }
            }
            Op::Xor if n.w == 1 && self.cx.cv(n.b) == Some(1) && depth < 24 => {
                if let Some(b) = self.quick(st, n.a, depth + 1) {
                    return Some(!b);
                }
            }
            _ => {}
        }
        if depth == 0 || depth < 3 {
            let nc = self.cx.not(c);
            for &p in st.pc.iter().rev() {
                if p == c {
                    return Some(true);
                }
                if p == nc {
                    return Some(false);
                }
            }
        }
        None
    }

    /// Add a constraint known to hold under the state's model.
    fn push_pc(&mut self, st: &mut State, c: E) {
        if self.cx.cv(c).is_some() {
            return;
        }
        let n = self.cx.n(c);
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && self.cx.cv(n.b) == Some(1) {
            let i = self.cx.n(n.a);
            if i.op == Op::Or {
                let x = self.cx.not(i.a);
                let y = self.cx.not(i.b);
                self.push_pc(st, x);
                self.push_pc(st, y);
                return;
            }
        }
        if self.cx.fl[c as usize] & 1 == 0 {
            st.pc.push(c);
            return;
        }
        st.pct.push(c);
        if n.op == Op::Eq && self.cx.cv(n.b) == Some(0) {
            let v = self.cx.n(n.a).a;
            if let Some(i) = st.tv.iter().rposition(|t| t.var == v) {
                for t in st.tv[..=i].iter_mut() {
                    t.hi = 0;
                }
            }
            return;
        }
        if n.op == Op::Xor && self.cx.cv(n.b) == Some(1) {
            let q = self.cx.n(n.a);
            if q.op == Op::Eq && self.cx.cv(q.b) == Some(0) {
                let v = self.cx.n(q.a).a;
                if let Some(i) = st.tv.iter().rposition(|t| t.var == v) {
                    for t in st.tv[i..].iter_mut() {
                        t.lo = t.lo.max(1);
                    }
                }
                self.time_model(st);
                return;
            }
        }
        if !matches!(n.op, Op::Ult | Op::Ule) {
            self.fatal = Some("time constraint that is not a bound".into());
            return;
        }
        let (na, nb) = (self.cx.n(n.a), self.cx.n(n.b));
        let strict = (n.op == Op::Ult) as i64;
        if na.op == Op::Var {
            if let Some(k) = self.cx.cv(n.b) {
                let hi = k as i64 - strict;
                if let Some(i) = st.tv.iter().rposition(|t| t.var == na.a) {
                    for t in st.tv[..=i].iter_mut() {
                        t.hi = t.hi.min(hi.max(0) as u32);
                    }
                }
            }
        }
        if nb.op == Op::Var {
            if let Some(k) = self.cx.cv(n.a) {
                let lo = k as i64 + strict;
                if let Some(i) = st.tv.iter().rposition(|t| t.var == nb.a) {
                    for t in st.tv[i..].iter_mut() {
                        t.lo = t.lo.max(lo as u32);
                    }
                }
            }
        }
        self.time_model(st);
    }

    fn time_model(&mut self, st: &mut State) {
        let mut ch = false;
        for t in &st.tv {
            let v = st.model.vals.entry(t.var).or_insert(u128::MAX);
            if *v != t.lo as u128 {
                *v = t.lo as u128;
                ch = true;
            }
        }
        if ch {
            st.memo = HashMap::default();
        }
    }

    fn fork(&mut self, st: &State, c: E, model: Model) {
        self.st.forks += 1;
        let mut o = st.clone();
        o.model = model;
        o.memo = HashMap::default();
        o.depth += 1;
        self.push_pc(&mut o, c);
        self.work.push(o);
    }

    /// Branch on a width-1 expression.
    fn decide(&mut self, st: &mut State, c: E) -> Rs<bool> {
        let mut c = c;
        // split on open time atoms until the condition is about inputs only
        loop {
            if let Some(b) = self.quick(st, c, 0) {
                return Ok(b);
            }
            if self.cx.fl[c as usize] & 1 == 0 {
                break;
            }
            let (r, open) = self.under(st, c);
            c = r;
            let Some(a) = open else {
                if self.cx.fl[c as usize] & 1 != 0 {
                    return Err(Stop::Fatal("time expression without atoms".into()));
                }
                continue;
            };
            if self.cx.cv(c).is_some() {
                continue;
            }
            self.st.time_splits += 1;
            let v = self.ev(st, a) != 0;
            let na = self.cx.not(a);
            let (t, o) = if v { (a, na) } else { (na, a) };
            let m = st.model.clone();
            self.fork(st, o, m);
            self.push_pc(st, t);
        }
        if let Some(b) = self.quick(st, c, 0) {
            return Ok(b);
        }
        let v = self.ev(st, c) != 0;
        let nc = self.cx.not(c);
        let (t, o) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, o)? {
            self.fork(st, o, m);
        }
        self.push_pc(st, t);
        Ok(v)
    }

    fn assume(&mut self, st: &mut State, c: E) -> Rs<()> {
        match self.quick(st, c, 0) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Dead),
            None => {}
        }
        if self.cx.fl[c as usize] & 1 != 0 {
            if let Some(None) = self.atom(st, c) {
                self.push_pc(st, c);
                return Ok(());
            }
            return if self.decide(st, c)? { Ok(()) } else { Err(Stop::Dead) };
        }
        if self.ev(st, c) == 0 {
            match self.query(st, c)? {
                Some(m) => {
                    st.model = m;
                    st.memo = HashMap::default();
                }
                None => return Err(Stop::Dead),
            }
        }
        self.push_pc(st, c);
        Ok(())
    }

    /// Check that `c` holds for every value on this path; report otherwise and continue under `c`.
    fn must(&mut self, st: &mut State, c: E, kind: &str, id: u64, detail: &str) -> Rs<()> {
        match self.quick(st, c, 0) {
            Some(true) => return Ok(()),
            Some(false) => {
                let m = st.model.clone();
                self.report(st, kind, id, &m, detail);
                return Err(Stop::Viol);
            }
            None => {}
        }
        let c = self.under(st, c).0;
        if let Some(b) = self.cx.cv(c) {
            if b == 0 {
                let m = st.model.clone();
                self.report(st, kind, id, &m, detail);
                return Err(Stop::Viol);
            }
            return Ok(());
        }
        self.st.asserts_solver += 1;
        let nc = self.cx.not(c);
        let bad = if self.ev(st, c) == 0 { Some(st.model.clone()) } else { self.query(st, nc)? };
        if let Some(m) = bad {
            self.report(st, kind, id, &m, detail);
            if self.cx.fl[c as usize] & 1 != 0 {
                return Err(Stop::Viol);
            }
            self.assume(st, c)?;
            return Ok(());
        }
        // implied: keep it as a lemma for quick()
        Ok(())
    }

    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> Rs<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => {
                let e = *e;
                if let Some(v) = self.cx.cv(e) {
                    return Ok(v);
                }
                for _ in 0..100000 {
                    let x = self.ev(st, e);
                    let k = self.cx.con(w, x);
                    let c = self.cx.eq(e, k);
                    if self.decide(st, c)? {
                        return Ok(x);
                    }
                }
                Err(Stop::Fatal("concretize".into()))
            }
            _ => Err(Stop::Fatal("concretize aggregate".into())),
        }
    }

    fn report(&mut self, st: &State, kind: &str, id: u64, m: &Model, detail: &str) {
        let at = st.th[st.cur].frames.last().map(|f| demangle(&f.f.name)).unwrap_or_default();
        let key = (kind.to_string(), id, at.clone());
        if !self.seen.insert(key) {
            return;
        }
        let inputs = self.values(st, m);
        let segs = self.schedule(st, m);
        let v = Violation { kind: kind.into(), id, at, trace: self.trace(st), inputs, segs, detail: detail.into() };
        if self.opts.verbose {
            eprintln!("VIOL {:?}", v);
            if st.weak.on {
                for (j, l) in st.log.iter().enumerate() {
                    let (s, id) = locate(l.addr).unwrap();
                    let o = st.mem.obj(s, id).unwrap();
                    eprintln!("store {j} hook {} {s:?}.{id}+{} n {} rel {} free {}", l.hook, l.addr - o.base, l.old.len(), l.rel, l.free);
                }
                eprintln!("{}", st.weak.note);
            }
        }
        self.viols.push(v);
    }

    // ---------------------------------------------------------------- values

    fn ex(&mut self, v: &V, w: u32) -> Rs<E> {
        Ok(match v {
            V::C(x) => self.cx.con(w, *x),
            V::S(e) => *e,
            V::U => self.cx.con(w, 0),
            V::A(_) => return Err(Stop::Fatal("aggregate used as scalar".into())),
        })
    }
    fn mk(&self, e: E) -> V {
        match self.cx.cv(e) {
            Some(x) => V::C(x),
            None => V::S(e),
        }
    }
    fn opv(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            O::C(c) => V::C(*c),
            O::A(v) => V::A(Rc::new(v.iter().map(|x| self.opv(st, x)).collect())),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: V) {
        let th = &mut st.th[st.cur];
        let f = Rc::make_mut(th.frames.last_mut().unwrap());
        f.regs[r as usize] = v;
    }
    fn next(&self, st: &mut State) {
        let th = &mut st.th[st.cur];
        Rc::make_mut(th.frames.last_mut().unwrap()).pc += 1;
    }
    fn addr_of(&mut self, st: &mut State, o: &O) -> Rs<u64> {
        let v = self.opv(st, o);
        Ok(self.concretize(st, &v, 64)? as u64)
    }

    pub fn binv(&mut self, op: Op, w: u32, a: &V, b: &V) -> Rs<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C(fold(op, w, *x, *y)));
        }
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let r = self.cx.bin(op, x, y);
        Ok(self.mk(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> Rs<V> {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let r = if sw { self.binv(op, w, b, a)? } else { self.binv(op, w, a, b)? };
        if neg {
            return self.binv(Op::Xor, 1, &r, &V::C(1));
        }
        Ok(r)
    }
    fn select(&mut self, c: &V, t: &Ty, a: &V, b: &V) -> Rs<V> {
        if let V::C(x) = c {
            return Ok(if *x != 0 { a.clone() } else { b.clone() });
        }
        let ce = self.ex(c, 1)?;
        self.ite(ce, t, a, b)
    }
    fn ite(&mut self, ce: E, t: &Ty, a: &V, b: &V) -> Rs<V> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.count();
                let mut o = vec![];
                for i in 0..n {
                    let ft = t.field(i).1;
                    let x = agg(a, i);
                    let y = agg(b, i);
                    o.push(self.ite(ce, &ft, &x, &y)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => {
                let w = t.bits();
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let r = self.cx.ite(ce, x, y);
                Ok(self.mk(r))
            }
        }
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: &V) -> Rs<V> {
        if let (Ty::Vec(n, ft), Ty::Vec(m, tt)) = (from, to) {
            if n == m && k != CastK::Bit {
                let mut o = vec![];
                for i in 0..*n {
                    let x = agg(v, i as usize);
                    o.push(self.cast(k, ft, tt, &x)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            CastK::Bit => self.bitcast(from, to, v),
            CastK::P2I | CastK::I2P | CastK::Trunc | CastK::Zext => match v {
                V::C(x) => Ok(V::C(x & mask(tw))),
                V::S(e) => {
                    let r = if tw < fw {
                        self.cx.trunc(*e, tw)
                    } else {
                        self.cx.zext(*e, tw)
                    };
                    Ok(self.mk(r))
                }
                V::U => Ok(V::C(0)),
                _ => Err(Stop::Fatal("cast of aggregate".into())),
            },
            CastK::Sext => match v {
                V::C(x) => Ok(V::C((sext(*x, fw) as u128) & mask(tw))),
                V::S(e) => {
                    let r = self.cx.sext_e(*e, tw);
                    Ok(self.mk(r))
                }
                V::U => Ok(V::C(0)),
                _ => Err(Stop::Fatal("cast of aggregate".into())),
            },
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &V) -> Rs<V> {
        let lanes = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (*n, e.bits()),
                _ => (1, t.bits()),
            }
        };
        let (n, fw) = lanes(from);
        let (m, tw) = lanes(to);
        if n == m {
            return Ok(match (v, from, to) {
                (V::A(a), Ty::Vec(..), Ty::Vec(..)) => V::A(a.clone()),
                (V::A(a), Ty::Vec(..), _) => a[0].clone(),
                (x, _, Ty::Vec(..)) if !matches!(x, V::A(_)) => V::A(Rc::new(vec![x.clone()])),
                (x, _, _) => x.clone(),
            });
        }
        let src: Vec<V> = match v {
            V::A(a) => a.to_vec(),
            x => vec![x.clone()],
        };
        let mut out = vec![];
        if tw >= fw {
            let k = tw / fw;
            for i in 0..m {
                let mut acc: Option<E> = None;
                for j in 0..k {
                    let e = self.ex(&src[(i * k + j) as usize], fw)?;
                    acc = Some(match acc {
                        None => e,
                        Some(lo) => self.cx.concat(e, lo),
                    });
                }
                out.push(self.mk(acc.unwrap()));
            }
        } else {
            let k = fw / tw;
            for s in &src {
                let e = self.ex(s, fw)?;
                for j in 0..k {
                    let x = self.cx.extract(e, (j + 1) * tw - 1, j * tw);
                    out.push(self.mk(x));
                }
            }
        }
        Ok(if matches!(to, Ty::Vec(..)) { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }

    // ---------------------------------------------------------------- memory

    fn global(&mut self, st: &mut State, id: usize) -> Rs<()> {
        if st.mem.globals.contains_key(&(id as u32)) {
            return Ok(());
        }
        if id >= self.m.globals.len() {
            return Err(Stop::Fatal("no such global".into()));
        }
        if !self.gcache.contains_key(&(id as u32)) {
            let g = &self.m.globals[id];
            let b = self.m.global_bytes(id as u32).map_err(|e| Stop::Fatal(format!("global {}: {e}", g.name)))?;
            let a = g.ty.align().max(16);
            let base = crate::ir::GLOBAL_BASE + ((id as u64) << crate::ir::SLOT_BITS) + a;
            let mut o = Obj::new(base, b.len() as u64, a, 0, true);
            o.data = b;
            self.gcache.insert(id as u32, o);
        }
        let o = self.gcache[&(id as u32)].clone();
        st.mem.globals.insert(id as u32, Rc::new(o));
        Ok(())
    }

    /// The running thread's own copy of a thread-local variable.
    fn thread_local(&mut self, st: &mut State, p: u64) -> Rs<u64> {
        let Some((Space::Global, id)) = locate(p) else { return Ok(p) };
        if st.cur == 0 || id >= TLS_ID {
            return Ok(p);
        }
        self.global(st, id)?;
        let own = TLS_ID + (st.cur << 17) + id;
        let d = ((own - id) as u64) << crate::ir::SLOT_BITS;
        if !st.mem.globals.contains_key(&(own as u32)) {
            if id >= 1 << 17 {
                return Err(Stop::Fatal("too many globals".into()));
            }
            let mut o = self.gcache[&(id as u32)].clone();
            o.base += d;
            o.shared = false;
            st.mem.globals.insert(own as u32, Rc::new(o));
        }
        Ok(p + d)
    }

    fn bad_mem(&mut self, st: &State, kind: &str, addr: u64, n: u64) -> Stop {
        let m = st.model.clone();
        self.report(st, kind, 0, &m, &format!("address {addr:#x} size {n}"));
        Stop::Viol
    }

    /// Bounds and lifetime check. The flag tells that the object was freed by the logged writer.
    fn access(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Rs<(Space, usize, usize, Option<u32>)> {
        self.st.memchecks += 1;
        let Some((s, id)) = locate(addr) else {
            return Err(self.bad_mem(st, "invalid-pointer", addr, n));
        };
        if s == Space::Global {
            self.global(st, id)?;
            if write && id < TLS_ID && self.m.globals[id].constant {
                return Err(self.bad_mem(st, "write-to-constant", addr, n));
            }
        }
        let Some(o) = st.mem.obj(s, id) else {
            return Err(self.bad_mem(st, "invalid-pointer", addr, n));
        };
        if addr < o.base || addr + n > o.base + o.size {
            return Err(self.bad_mem(st, "out-of-bounds", addr, n));
        }
        let off = (addr - o.base) as usize;
        let mut fr = None;
        if o.life != Life::Alive {
            if st.mode == Mode::Reader && o.freed_at.is_some() && !write {
                fr = o.freed_at;
            } else if st.mode == Mode::Reader && o.freed_at.is_some() {
                fr = o.freed_at;
            } else {
                return Err(self.bad_mem(st, "use-after-free", addr, n));
            }
        }
        Ok((s, id, off, fr))
    }

    fn final_val(&mut self, st: &State, s: Space, id: usize, off: usize, n: usize) -> V {
        let o = st.mem.obj(s, id).unwrap();
        if !o.has_sym(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return V::C(u128::from_le_bytes(b));
        }
        let data: Vec<u8> = o.data[off..off + n].to_vec();
        let sym: Vec<E> = o.sym[off..off + n].to_vec();
        let e = self.join(&data, &sym);
        self.mk(e)
    }
    fn join(&mut self, data: &[u8], sym: &[E]) -> E {
        let n = data.len();
        let mut acc: Option<E> = None;
        for i in (0..n).rev() {
            let b = if !sym.is_empty() && sym[i] != 0 { sym[i] } else { self.cx.con(8, data[i] as u128) };
            acc = Some(match acc {
                None => b,
                Some(h) => self.cx.concat(h, b),
            });
        }
        acc.unwrap()
    }

    fn new_tvar(&mut self, st: &mut State) -> E {
        let lo = st.tv.last().map(|t| t.lo).unwrap_or(0);
        let n = st.log.len() as u32;
        self.st.tvars += 1;
        // paths share the variables (and so the terms over them); one path uses each once
        while self.times.len() <= st.tnext {
            let e = self.cx.var("T", 16);
            self.times.push(e);
        }
        let e = self.times[st.tnext];
        st.tnext += 1;
        let var = self.cx.n(e).a;
        let hook = st.th[st.cur].hooks;
        let prev = st.tv.last().map(|t| t.e);
        st.model.vals.insert(var, lo as u128);
        st.tv.push(TVar { e, var, lo, hi: n, hook });
        if let Some(p) = prev {
            let c = self.cx.bin(Op::Ule, p, e);
            st.pct.push(c);
        }
        let k = self.cx.con(16, n as u128);
        let c = self.cx.bin(Op::Ule, e, k);
        st.pct.push(c);
        e
    }

    /// Log entries of the writer that touch [addr, addr+n).
    fn overlaps(&self, st: &State, addr: u64, n: u64) -> Vec<u32> {
        let mut o = vec![];
        if let Some(v) = st.logidx.get(&(addr >> crate::ir::SLOT_BITS)) {
            for &j in v {
                let l = &st.log[j as usize];
                if l.free || (l.addr < addr + n && addr < l.addr + l.old.len() as u64) {
                    o.push(j);
                }
            }
        }
        o
    }

    /// Read `n` bytes; `t` is the time variable shared by the pieces of one access.
    fn rd(&mut self, st: &mut State, addr: u64, n: usize, t: &mut Option<E>) -> Rs<V> {
        let (s, id, off, freed) = self.access(st, addr, n as u64, false)?;
        let cur = self.final_val(st, s, id, off, n);
        if st.mode != Mode::Reader || st.logidx.is_empty() {
            return Ok(cur);
        }
        let ov = self.overlaps(st, addr, n as u64);
        if ov.is_empty() {
            return Ok(cur);
        }
        if st.weak.on {
            return self.rd_weak(st, addr, n, s, id, off, &ov, freed.is_some());
        }
        let lo = st.tv.last().map(|t| t.lo).unwrap_or(0);
        // versions, newest first: value before entry j
        let o = st.mem.obj(s, id).unwrap();
        let mut data: Vec<u8> = o.data[off..off + n].to_vec();
        let mut sym: Vec<E> = if o.sym.is_empty() { vec![0; n] } else { o.sym[off..off + n].to_vec() };
        let over = st.overlay.get(&addr).copied();
        let w = (n * 8) as u32;
        let curr = self.ex(&cur, w)?;
        let mut vers: Vec<(u32, E)> = vec![]; // (j, value before entry j)
        let log = st.log.clone();
        for &j in ov.iter().rev() {
            if j < lo {
                break;
            }
            let l = &log[j as usize];
            if !l.free {
                for k in 0..n {
                    let a = addr + k as u64;
                    if a >= l.addr && a < l.addr + l.old.len() as u64 {
                        let p = (a - l.addr) as usize;
                        data[k] = l.old[p];
                        sym[k] = if l.olds.is_empty() { 0 } else { l.olds[p] };
                    }
                }
            }
            let mut e = self.join(&data, &sym);
            if let Some((_, d)) = over {
                if self.cx.w(d) == w {
                    e = self.cx.bin(Op::Add, e, d);
                }
            }
            vers.push((j, e));
        }
        if vers.is_empty() {
            return Ok(cur);
        }
        vers.reverse();
        let te = match *t {
            Some(e) => e,
            None if self.stubborn(st) && !st.tv.is_empty() => {
                let e = st.tv.last().unwrap().e;
                *t = Some(e);
                e
            }
            None => {
                let e = self.new_tvar(st);
                *t = Some(e);
                if st.pause_pending {
                    if let Some(&p) = st.last_t.get(&addr) {
                        // spinning makes sense only if the location changes in between
                        let pn = self.cx.n(p).a;
                        let lo = st.tv.iter().rev().find(|t| t.var == pn).map(|t| t.lo).unwrap_or(0);
                        if let Some(&(j, _)) = vers.iter().find(|v| v.0 >= lo) {
                            st.pause_pending = false;
                            let k = self.cx.con(16, j as u128);
                            let c = self.cx.bin(Op::Ult, k, e);
                            self.assume(st, c)?;
                        }
                    }
                }
                e
            }
        };
        st.last_t.insert(addr, te);
        if let Some(ft) = freed {
            let k = self.cx.con(16, ft as u128);
            let c = self.cx.bin(Op::Ule, te, k);
            self.must(st, c, "use-after-free", 0, "reader touches an object after the writer freed it")?;
            self.assume(st, c)?;
        }
        let mut acc = curr;
        for &(j, e) in vers.iter().rev() {
            let k = self.cx.con(16, j as u128);
            let c = self.cx.bin(Op::Ule, te, k);
            acc = self.cx.ite(c, e, acc);
        }
        Ok(self.mk(acc))
    }

    /// Read on a weakly ordered processor: any store to the place that is not hidden by what this thread has
    /// acquired or has read from the place before. Choices that lead to different values or views fork.
    #[allow(clippy::too_many_arguments)]
    fn rd_weak(&mut self, st: &mut State, addr: u64, n: usize, s: Space, id: usize, off: usize, ov: &[u32], freed: bool) -> Rs<V> {
        if freed {
            let m = st.model.clone();
            self.report(st, "use-after-free", 0, &m, "reader touches an object the writer frees without waiting for it");
            return Err(Stop::Viol);
        }
        let words = addr..addr + n as u64;
        if words.clone().all(|x| st.weak.own.contains(&x)) {
            return Ok(self.final_val(st, s, id, off, n));
        }
        let low = words.clone().filter_map(|w| st.weak.view.get(&w)).copied().max().unwrap_or(0).max(st.weak.acq);
        // candidates, oldest first: (visible stores, index of the store read + 1, acquired prefix, value)
        let log = st.log.clone();
        let o = st.mem.obj(s, id).unwrap();
        let mut data: Vec<u8> = o.data[off..off + n].to_vec();
        let mut sym: Vec<E> = if o.sym.is_empty() { vec![0; n] } else { o.sym[off..off + n].to_vec() };
        let mut cand: Vec<(u32, u32, u32, E)> = vec![];
        let mut i = ov.len();
        loop {
            let (at, r) = if i == 0 { (0, 0) } else { (ov[i - 1] + 1, log[ov[i - 1] as usize].rel) };
            let e = self.join(&data, &sym);
            cand.push((at.max(low), at, r, e));
            if at <= low {
                break;
            }
            i -= 1;
            let l = &log[ov[i] as usize];
            for k in 0..n {
                let a = addr + k as u64;
                if a >= l.addr && a < l.addr + l.old.len() as u64 {
                    let p = (a - l.addr) as usize;
                    data[k] = l.old[p];
                    sym[k] = if l.olds.is_empty() { 0 } else { l.olds[p] };
                }
            }
        }
        cand.reverse();
        if st.pause_pending {
            if let Some(&p) = st.weak.last.get(&addr) {
                // spinning makes sense only if the place changes in between
                if cand.iter().any(|c| c.1 > p) {
                    cand.retain(|c| c.1 > p);
                    st.pause_pending = false;
                }
            }
        }
        let acquire = matches!(self.ord, Ord::Acquire | Ord::AcqRel | Ord::SeqCst);
        // of equal values the older store binds less, unless the newer one releases less
        let mut keep: Vec<(u32, u32, u32, E)> = vec![];
        for c in cand {
            if !keep.iter().any(|k| k.3 == c.3 && k.2.max(st.weak.acq) <= c.2.max(st.weak.acq)) {
                keep.push(c);
            }
        }
        let k = if st.weak.pos < st.weak.force.len() {
            st.weak.force[st.weak.pos] as usize
        } else {
            for j in 1..keep.len() {
                let mut o = st.clone();
                o.weak.force.push(j as u32);
                o.weak.redo = true;
                o.th[2].hooks = o.weak.hook0;
                self.st.forks += 1;
                self.st.time_splits += 1;
                self.work.push(o);
            }
            st.weak.force.push(0);
            0
        };
        st.weak.pos += 1;
        self.st.tvars += 1;
        if k >= keep.len() {
            return Err(Stop::Fatal("weak read: choice lost".into()));
        }
        let (t, at, r, e) = keep[k];
        let w = &mut st.weak;
        if acquire {
            w.acq = w.acq.max(r);
        } else {
            w.pend = w.pend.max(r);
        }
        for x in words {
            if at > w.acq {
                w.view.insert(x, at);
            } else {
                w.view.remove(&x);
            }
        }
        w.last.insert(addr, at);
        let h = st.th[2].hooks;
        if self.opts.verbose {
            let b = st.mem.obj(s, id).unwrap().base;
            let x = format!("read {h} {s:?}.{id}+{} n {n} {:?}: store {} of {ov:?}, acquired {} pend {}\n", addr - b, self.ord, at as i64 - 1, st.weak.acq, st.weak.pend);
            st.weak.note.push_str(&x);
        }
        let w = &mut st.weak;
        w.sched.retain(|x| x.0 != h);
        w.sched.push((h, t));
        Ok(self.mk(e))
    }

    fn load(&mut self, st: &mut State, ty: &Ty, addr: u64, t: &mut Option<E>) -> Rs<V> {
        match ty {
            Ty::I(w) => {
                let n = bytes_of(*w);
                let v = self.rd(st, addr, n, t)?;
                if (n * 8) as u32 != *w {
                    return match v {
                        V::C(x) => Ok(V::C(x & mask(*w))),
                        V::S(e) => {
                            let r = self.cx.trunc(e, *w);
                            Ok(self.mk(r))
                        }
                        _ => unreachable!(),
                    };
                }
                Ok(v)
            }
            Ty::Ptr => self.rd(st, addr, 8, t),
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => {
                let mut o = vec![];
                for i in 0..ty.count() {
                    let (off, ft) = ty.field(i);
                    o.push(self.load(st, &ft, addr + off, t)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Err(Stop::Fatal(format!("load of type {ty:?}"))),
        }
    }

    /// Remember old contents (mode A writer) for one store of [addr, addr+n).
    fn log_write(&mut self, st: &mut State, addr: u64, n: u64) -> Rs<()> {
        match st.mode {
            Mode::Writer | Mode::Inter if (st.mode == Mode::Writer && st.cur == 1) || (st.three && st.cur > 0) => {
                st.stores += 1;
                let (s, id, off, _) = self.access(st, addr, n, true)?;
                let o = st.mem.obj(s, id).unwrap();
                if !o.shared && !(st.weak.on && matches!(s, Space::Heap(_))) {
                    return Ok(());
                }
                let n = n as usize;
                let olds = if o.has_sym(off, n) { o.sym[off..off + n].to_vec() } else { vec![] };
                let old = o.data[off..off + n].to_vec();
                let mut rel = 0;
                if st.weak.on {
                    rel = match self.ord {
                        Ord::Release | Ord::AcqRel | Ord::SeqCst => st.log.len() as u32 + 1,
                        Ord::NA => 0,
                        _ => st.weak.fence,
                    };
                    if self.rmw {
                        // a read-modify-write continues the release sequence
                        let a = addr;
                        let b = addr + n as u64;
                        if let Some(l) = st.log.iter().rev().find(|l| !l.free && l.addr < b && a < l.addr + l.old.len() as u64) {
                            rel = rel.max(l.rel);
                        }
                    }
                }
                let e = LogEnt { hook: st.th[st.cur].hooks, tid: st.cur, addr, old, olds, free: false, rel };
                Rc::make_mut(&mut st.log).push(e);
            }
            Mode::Reader => {
                let (s, id, _, freed) = self.access(st, addr, n, true)?;
                let shared = st.mem.obj(s, id).unwrap().shared;
                if !shared {
                    return Ok(());
                }
                if !self.overlaps(st, addr, n).is_empty() || freed.is_some() {
                    if st.weak.on {
                        // its store comes after all of the writer's stores to that place
                        let n_ = st.log.len() as u32;
                        for x in addr..addr + n {
                            st.weak.view.insert(x, n_);
                            if !self.rmw {
                                st.weak.own.insert(x);
                            }
                        }
                        return Ok(());
                    }
                    // a conflicting plain store: only the schedules in which the writer is done
                    self.st.restricted += 1;
                    self.join_writer(st)?;
                }
            }
            Mode::Inter => {
                st.stores += 1;
            }
            _ => {}
        }
        Ok(())
    }

    fn join_writer(&mut self, st: &mut State) -> Rs<()> {
        let n = st.log.len() as u32;
        if st.weak.on {
            st.weak.acq = n;
            return Ok(());
        }
        if st.tv.last().map(|t| t.lo) == Some(n) || st.log.is_empty() {
            return Ok(());
        }
        let e = self.new_tvar(st);
        let k = self.cx.con(16, n as u128);
        let c = self.cx.bin(Op::Ule, k, e);
        self.assume(st, c)
    }

    fn publish(&mut self, st: &mut State, addr: u64) {
        // mark everything reachable from `addr` as shared
        let mut todo = vec![addr];
        while let Some(a) = todo.pop() {
            let Some((s, id)) = locate(a & !7) else { continue };
            if s == Space::Global {
                continue;
            }
            let Some(o) = st.mem.obj(s, id) else { continue };
            if o.shared || o.life != Life::Alive {
                continue;
            }
            let mut i = 0;
            while i + 8 <= o.data.len() {
                let w = u64::from_le_bytes(o.data[i..i + 8].try_into().unwrap());
                if locate(w).is_some() {
                    todo.push(w);
                }
                i += 8;
            }
            st.mem.obj_mut(s, id).shared = true;
        }
    }

    fn put(&mut self, st: &mut State, s: Space, id: usize, off: usize, n: usize, v: &V) -> Rs<()> {
        let track = st.mode != Mode::Seq && n == 8;
        match v {
            V::C(x) => {
                let x = *x;
                let o = st.mem.obj_mut(s, id);
                o.put_con(off, n, x);
                let sh = o.shared;
                if track && sh && locate(x as u64).is_some() {
                    self.publish(st, x as u64);
                }
            }
            V::U => {
                st.mem.obj_mut(s, id).put_con(off, n, 0);
            }
            V::S(e) => {
                let e = *e;
                let mut b = vec![];
                for i in 0..n {
                    b.push(self.cx.extract(e, (i * 8 + 7) as u32, (i * 8) as u32));
                }
                let cv: Vec<Option<u128>> = b.iter().map(|&x| self.cx.cv(x)).collect();
                let o = st.mem.obj_mut(s, id);
                o.need_sym();
                for i in 0..n {
                    match cv[i] {
                        Some(v) => {
                            o.data[off + i] = v as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b[i],
                    }
                }
                if track && o.shared {
                    let mut leaves = vec![];
                    self.ite_leaves(e, &mut leaves);
                    for l in leaves {
                        if locate(l).is_some() {
                            self.publish(st, l);
                        }
                    }
                }
            }
            V::A(_) => return Err(Stop::Fatal("store of aggregate piece".into())),
        }
        Ok(())
    }
    fn ite_leaves(&self, e: E, out: &mut Vec<u64>) {
        let n = self.cx.n(e);
        match n.op {
            Op::Const => out.push(n.imm as u64),
            Op::Ite => {
                self.ite_leaves(n.b, out);
                self.ite_leaves(n.c, out);
            }
            _ => {}
        }
    }

    fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &V) -> Rs<()> {
        match ty {
            Ty::I(w) => {
                let n = bytes_of(*w);
                let (s, id, off, _) = self.access(st, addr, n as u64, true)?;
                let v2;
                let v = if (n * 8) as u32 != *w {
                    v2 = match v {
                        V::S(e) => {
                            let r = self.cx.zext(*e, (n * 8) as u32);
                            V::S(r)
                        }
                        x => x.clone(),
                    };
                    &v2
                } else {
                    v
                };
                self.put(st, s, id, off, n, v)
            }
            Ty::Ptr => {
                let (s, id, off, _) = self.access(st, addr, 8, true)?;
                self.put(st, s, id, off, 8, v)
            }
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => {
                for i in 0..ty.count() {
                    let (o, ft) = ty.field(i);
                    let x = agg(v, i);
                    self.store(st, &ft, addr + o, &x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Fatal(format!("store of type {ty:?}"))),
        }
    }

    /// Scheduling point and hook accounting before a memory access. `Ok(true)`: switched thread, re-dispatch.
    fn hook(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Rs<bool> {
        if st.mode == Mode::Inter && st.cur > 0 {
            let sh = match locate(addr) {
                Some((Space::Global, id)) => {
                    id < self.m.globals.len() && !self.m.globals[id].constant
                }
                Some((s, id)) => st.mem.obj(s, id).map(|o| o.shared).unwrap_or(false),
                None => addr < 4096,
            };
            if sh {
                let mut a = addr >> 3;
                let last = (addr + n.max(1) - 1) >> 3;
                let mut conf = false;
                while a <= last {
                    let bit = match (st.cur, write) {
                        (1, false) => 1,
                        (1, true) => 2,
                        (_, false) => 4,
                        (_, true) => 8,
                    };
                    *self.acc.entry(a).or_insert(0) |= bit;
                    conf |= self.conflict.contains(&a);
                    a += 1;
                }
                let waits = self.stubborn(st);
                let th = &st.th[st.cur];
                // the reader may tell apart where among a writer's own stores the other writer ran
                conf |= st.three && write;
                let other = if st.three { 4 - st.cur } else { 3 - st.cur };
                if conf && !waits && !(st.asym && st.cur == 2) && th.choice_at != th.hooks && st.preempt < st.maxpre && !st.th[other].done {
                    let h = th.hooks;
                    let cur = st.cur;
                    st.th[cur].choice_at = h;
                    // symbolic preemption point: P_k == h
                    let nm = format!("P{}", st.preempt);
                    let _ = nm;
                    let mut o = st.clone();
                    o.preempt += 1;
                    o.segs.push((cur, h));
                    o.cur = other;
                    self.st.forks += 1;
                    self.st.switches += 1;
                    self.work.push(o);
                }
            }
        }
        Ok(false)
    }
    fn count_hook(&self, st: &mut State) {
        let c = st.cur;
        st.th[c].hooks += 1;
    }

    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, len: u64) -> Rs<()> {
        if len == 0 || dst == src {
            // the word hooks still happen
            let k = (len + 7) / 8;
            let c = st.cur;
            st.th[c].hooks += 2 * k;
            return Ok(());
        }
        // check first (no side effects before forks or violations)
        self.access(st, src, len, false)?;
        self.access(st, dst, len, true)?;
        let words = (len + 7) / 8;
        if st.mode == Mode::Seq {
            let (s, id, off, _) = self.access(st, src, len, false)?;
            let o = st.mem.obj(s, id).unwrap();
            let data = o.data[off..off + len as usize].to_vec();
            let sym = if o.has_sym(off, len as usize) { o.sym[off..off + len as usize].to_vec() } else { vec![] };
            let (s, id, off, _) = self.access(st, dst, len, true)?;
            let o = st.mem.obj_mut(s, id);
            o.data[off..off + len as usize].copy_from_slice(&data);
            if !sym.is_empty() {
                o.need_sym();
                o.sym[off..off + len as usize].copy_from_slice(&sym);
            } else if !o.sym.is_empty() {
                for x in &mut o.sym[off..off + len as usize] {
                    *x = 0;
                }
            }
            let c = st.cur;
            st.th[c].hooks += 2 * words;
            return Ok(());
        }
        let mut vals = vec![];
        // native order: all source words are read, then written, low to high (see rt.c)
        let mut i = 0;
        while i < len {
            let n = (len - i).min(8);
            let mut t = None;
            let v = self.rd(st, src + i, n as usize, &mut t)?;
            vals.push((i, n, v));
            self.count_hook(st);
            i += n;
        }
        for (i, n, v) in vals {
            self.log_write(st, dst + i, n)?;
            let (s, id, off, _) = self.access(st, dst + i, n, true)?;
            self.put(st, s, id, off, n as usize, &v)?;
            self.count_hook(st);
        }
        Ok(())
    }

    fn memset(&mut self, st: &mut State, dst: u64, b: &V, len: u64) -> Rs<()> {
        if len == 0 {
            return Ok(());
        }
        self.access(st, dst, len, true)?;
        let mut i = 0;
        let e = self.ex(b, 8)?;
        while i < len {
            let n = (len - i).min(8);
            let mut v = e;
            for _ in 1..n {
                v = self.cx.concat(v, e);
            }
            let v = self.mk(v);
            self.log_write(st, dst + i, n)?;
            let (s, id, off, _) = self.access(st, dst + i, n, true)?;
            self.put(st, s, id, off, n as usize, &v)?;
            self.count_hook(st);
            i += n;
        }
        Ok(())
    }

    /// memcmp / bcmp: no forking on contents.
    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, len: u64, ord: bool) -> Rs<V> {
        if len == 0 {
            return Ok(V::C(0));
        }
        self.access(st, a, len, false)?;
        self.access(st, b, len, false)?;
        let mut parts = vec![];
        let mut i = 0;
        while i < len {
            let n = (len - i).min(8);
            let (mut t1, mut t2) = (None, None);
            let x = self.rd(st, a + i, n as usize, &mut t1)?;
            self.count_hook(st);
            let y = self.rd(st, b + i, n as usize, &mut t2)?;
            self.count_hook(st);
            parts.push((n as u32 * 8, x, y));
            i += n;
        }
        let mut acc = self.cx.con(32, 0);
        for (w, x, y) in parts.into_iter().rev() {
            let x = self.ex(&x, w)?;
            let y = self.ex(&y, w)?;
            let x = self.bswap(x);
            let y = self.bswap(y);
            let eq = self.cx.eq(x, y);
            let one = self.cx.con(32, 1);
            let m1 = self.cx.con(32, mask(32));
            let ne = if ord {
                let lt = self.cx.bin(Op::Ult, x, y);
                self.cx.ite(lt, m1, one)
            } else {
                one
            };
            acc = self.cx.ite(eq, acc, ne);
        }
        Ok(self.mk(acc))
    }
    fn bswap(&mut self, e: E) -> E {
        let w = self.cx.w(e);
        let mut acc: Option<E> = None;
        for i in 0..w / 8 {
            let b = self.cx.extract(e, i * 8 + 7, i * 8);
            acc = Some(match acc {
                None => b,
                Some(h) => self.cx.concat(h, b),
            });
        }
        acc.unwrap()
    }

    // ---------------------------------------------------------------- control

    fn jump(&mut self, st: &mut State, to: u32) -> Rs<()> {
        let fr = st.th[st.cur].frames.last().unwrap().clone();
        let f = fr.f.clone();
        let prev = fr.cur;
        let mut pc = f.blocks[to as usize];
        let mut sets = vec![];
        while let I::Phi(d, inc) = &f.code[pc as usize] {
            let o = inc.iter().find(|x| x.1 == prev).ok_or_else(|| Stop::Fatal("phi".into()))?;
            sets.push((*d, self.opv(st, &o.0)));
            pc += 1;
        }
        drop(fr);
        let th = &mut st.th[st.cur];
        let fr = Rc::make_mut(th.frames.last_mut().unwrap());
        for (d, v) in sets {
            fr.regs[d as usize] = v;
        }
        fr.pc = pc;
        fr.cur = to;
        self.stall(st)?;
        match st.mode {
            Mode::Reader if st.weak.on && st.cur == 2 && !st.pause_pending => {
                let now = (st.weak.sched.len(), st.weak.acq, 0);
                if now != st.chk {
                    st.chk = now;
                    return self.merge_point(st, 0);
                }
                Ok(())
            }
            Mode::Reader if st.cur == 2 && !st.pause_pending => {
                let lo = st.tv.last().map(|t| t.lo).unwrap_or(0);
                let now = (st.tv.len(), lo, 0);
                if now != st.chk {
                    st.chk = now;
                    return self.merge_point(st, lo);
                }
                Ok(())
            }
            Mode::Inter if st.cur > 0 && !self.opts.no_merge_b && !st.three => {
                let now = (st.segs.len(), st.preempt, st.th[st.cur].hooks);
                if st.segs.len() != st.chk.0 || (st.maxpre > st.preempt && now.2 != st.chk.2) {
                    st.chk = now;
                    let p = st.preempt;
                    return self.merge_point(st, p);
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }

    /// The moments a value still depends on, with what is known about each. (The bounds are propagated along
    /// the chain of moments, so two states that agree here allow the same moments for the value, and for
    /// every later read those that its lower bound allows.)
    fn times_of(&self, st: &State, e: E) -> Vec<u64> {
        let mut seen = HashSet::default();
        let mut todo = vec![e];
        let mut vars = vec![];
        while let Some(x) = todo.pop() {
            if self.cx.fl[x as usize] & 1 == 0 || !seen.insert(x) {
                continue;
            }
            let n = self.cx.n(x);
            match n.op {
                Op::Const => {}
                Op::Var => vars.push(n.a),
                Op::Extract | Op::Zext | Op::Sext => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        vars.sort_unstable();
        let mut o = vec![];
        for v in vars {
            if let Some(t) = st.tv.iter().rev().find(|t| t.var == v) {
                o.extend([0x71, v as u64, t.lo as u64, t.hi as u64]);
            }
        }
        o
    }

    /// Continuations of the threads from `from` on, memory and everything else that decides what happens next.
    fn state_key(&mut self, st: &State, from: usize) -> u128 {
        let mut h = crate::fx::Print::new();
        let mut put = |x: u64| h.put(x);
        put(st.epoch);
        put(st.cur as u64);
        put(st.pause_pending as u64 + 2 * (st.stub == 1) as u64);
        put(st.reader_entered as u64);
        put(st.inputs.len() as u64);
        put(st.pc.len() as u64);
        for &c in &st.pc {
            put(c as u64);
        }
        put(st.mem.live as u64);
        for c in &st.colls {
            put(c.active.len() as u64);
            c.active.iter().for_each(|&x| put(x));
            put(c.retired.len() as u64);
            for r in &c.retired {
                put(r.ptr);
                put(r.f);
                put(r.holders.len() as u64);
                r.holders.iter().for_each(|&x| put(x));
            }
        }
        for (a, (w, e)) in &st.overlay {
            put(*a);
            put(*w as u64);
            let e = self.under(st, *e).0;
            if self.cx.fl[e as usize] & 1 != 0 {
                self.times_of(st, e).into_iter().for_each(&mut put);
            }
            put(e as u64);
        }
        for tid in from..st.th.len() {
            put(0xfeed);
            let th = &st.th[tid];
            put(th.done as u64);
            if st.mode == Mode::Inter {
                put((th.choice_at == th.hooks) as u64);
                // how often this thread has to be resumed decides nothing else
            }
            let n = th.frames.len();
            for (i, fr) in th.frames.iter().enumerate() {
                let _ = (i, n);
                let key = Rc::as_ptr(&fr.f) as usize;
                let lv = self.lives.entry(key).or_insert_with(|| Rc::new(crate::live::live(&fr.f))).clone();
                put(key as u64);
                put(fr.pc as u64);
                put(fr.stk as u64);
                for &r in &lv.at[fr.pc as usize] {
                    let mut todo = vec![fr.regs[r as usize].clone()];
                    while let Some(v) = todo.pop() {
                        match v {
                            V::C(x) => {
                                put(1);
                                put(x as u64);
                                put((x >> 64) as u64);
                            }
                            V::S(e) => {
                                let e = self.under(st, e).0;
                                if self.cx.fl[e as usize] & 1 != 0 {
                                    self.times_of(st, e).into_iter().for_each(&mut put);
                                }
                                match self.cx.cv(e) {
                                    Some(x) => {
                                        put(1);
                                        put(x as u64);
                                        put((x >> 64) as u64);
                                    }
                                    None => {
                                        put(2);
                                        put(e as u64);
                                    }
                                }
                            }
                            V::A(a) => {
                                put(3);
                                put(a.len() as u64);
                                todo.extend(a.iter().cloned());
                            }
                            V::U => put(4),
                        }
                    }
                }
            }
        }
        for t in &st.th {
            put(t.clock);
        }
        let dirty = st.mem.dirty.clone();
        for &(s, id) in dirty.iter() {
            if let Space::Stack(t) = s {
                if id >= st.mem.depth[t] {
                    continue;
                }
            }
            let Some(o) = st.mem.obj(s, id) else { continue };
            put(o.base);
            put(o.life as u64 + 8 * o.shared as u64);
            if o.life != Life::Alive {
                continue;
            }
            let o = o.clone();
            let mut i = 0;
            while i < o.data.len() {
                let k = (o.data.len() - i).min(8);
                let mut b = [0u8; 8];
                b[..k].copy_from_slice(&o.data[i..i + k]);
                if !o.sym.is_empty() && o.sym[i..i + k].iter().any(|&e| e != 0) {
                    for j in 0..k {
                        let e = o.sym[i + j];
                        if e != 0 {
                            let e = self.under(st, e).0;
                            if self.cx.fl[e as usize] & 1 != 0 {
                                self.times_of(st, e).into_iter().for_each(&mut put);
                            }
                            match self.cx.cv(e) {
                                Some(x) => b[j] = x as u8,
                                None => {
                                    b[j] = 0;
                                    put(((j as u64) << 56) | e as u64);
                                }
                            }
                        }
                    }
                }
                put(u64::from_le_bytes(b));
                i += 8;
            }
        }
        h.finish()
    }

    fn top_key(&mut self, st: &State) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = crate::fx::Fx::default();
        let Some(fr) = st.th[st.cur].frames.last() else { return 0 };
        let key = Rc::as_ptr(&fr.f) as usize;
        let lv = self.lives.entry(key).or_insert_with(|| Rc::new(crate::live::live(&fr.f))).clone();
        for &r in &lv.at[fr.pc as usize] {
            match &fr.regs[r as usize] {
                V::C(x) => x.hash(&mut h),
                V::S(e) => e.hash(&mut h),
                _ => {}
            }
        }
        h.finish()
    }

    /// A thread that comes back to the very same state without having been interrupted goes on like that for ever:
    /// it waits for another thread, with or without saying so.
    fn stall(&mut self, st: &mut State) -> Rs<()> {
        st.jumps += 1;
        let tracked = matches!(st.mode, Mode::Inter | Mode::Reader) && st.cur > 0;
        if st.jumps < if tracked { 512 } else { 1 << 16 } {
            return Ok(());
        }
        let seen = st.tv.len() + st.weak.sched.len() + st.weak.acq as usize;
        let fr = st.th[st.cur].frames.last().unwrap();
        let at = (st.th[st.cur].frames.len(), Rc::as_ptr(&fr.f) as usize, fr.pc, 4 * seen + st.mode as usize);
        if st.jumps.is_power_of_two() {
            if !st.mem.track {
                st.mem.start_tracking(true);
            }
            st.mark = Some((at, self.top_key(st), self.state_key(st, 0)));
            return Ok(());
        }
        let Some((m, t, k)) = st.mark else { return Ok(()) };
        if m != at || t != self.top_key(st) || k != self.state_key(st, 0) {
            return Ok(());
        }
        if self.stubborn(st) {
            return Err(Stop::Dead);
        }
        let c = st.cur;
        st.jumps = 0;
        st.mark = None;
        if st.mode == Mode::Inter && c > 0 {
            let o = if st.three { 4 - c } else { 3 - c };
            if !st.th[o].done {
                let (mark, cnt) = st.pause_mark[c];
                let cnt = if mark == st.stores { cnt + 2000 } else { 0 };
                st.pause_mark[c] = (st.stores, cnt);
                if cnt <= 5000 {
                    st.stalled = true;
                    return Ok(());
                }
            }
        }
        let m = st.model.clone();
        self.report(st, "no-progress", 0, &m, "a thread comes back to the same state for ever");
        Err(Stop::Viol)
    }

    /// Prune a state that an explored one subsumes: same continuation, same memory, and (reader) an
    /// earlier point in the writer's history or (interleaving) no more preemptions used.
    fn merge_point(&mut self, st: &mut State, rank: u32) -> Rs<()> {
        self.st.merge_points += 1;
        let key = self.state_key(st, 1);
        if st.weak.on {
            return self.merge_weak(st, key);
        }
        let own = st.visited.iter().rev().find(|v| v.0 == key).map(|v| v.1);
        if let Some(l) = own {
            if st.mode == Mode::Inter {
                return Ok(());
            }
            if l == rank {
                if rank as usize == st.log.len() {
                    let m = st.model.clone();
                    self.report(st, "no-progress", 0, &m, "the reader loops although no other thread runs");
                    return Err(Stop::Viol);
                }
                return Err(Stop::Merged);
            }
        }
        match self.merge.get_mut(&key) {
            Some(r) if *r <= rank => return Err(Stop::Merged),
            Some(r) => *r = rank,
            None => {
                self.merge.insert(key, rank);
            }
        }
        st.visited.push((key, rank));
        Ok(())
    }

    /// A state is pruned when one with the same continuation and memory that was bound to see no more was explored.
    fn merge_weak(&mut self, st: &mut State, key: u128) -> Rs<()> {
        use std::hash::{Hash, Hasher};
        let w = &st.weak;
        let view: Vec<(u64, u32)> = w.view.iter().filter(|x| *x.1 > w.acq).map(|(a, b)| (*a, *b)).collect();
        let pend = w.pend.max(w.acq);
        let mut h = crate::fx::Fx::default();
        view.hash(&mut h);
        pend.hash(&mut h);
        let me = (key, w.acq, h.finish());
        if w.seen.contains(&me) {
            if w.acq as usize == st.log.len() {
                let m = st.model.clone();
                self.report(st, "no-progress", 0, &m, "the reader loops although no other thread runs");
                return Err(Stop::Viol);
            }
            return Err(Stop::Merged);
        }
        let le = |x: &(u32, u32, Vec<(u64, u32)>), y: (u32, u32, &Vec<(u64, u32)>)| {
            x.0 <= y.0
                && x.1 <= y.1
                && x.2.iter().all(|(a, v)| *v <= y.0 || y.2.iter().any(|(b, u)| a == b && v <= u))
        };
        let l = self.wmerge.entry(key).or_default();
        if l.iter().any(|x| le(x, (me.1, pend, &view))) {
            return Err(Stop::Merged);
        }
        let n = (me.1, pend, view);
        l.retain(|x| !le(&n, (x.0, x.1, &x.2)));
        l.push(n);
        st.weak.seen.push(me);
        Ok(())
    }

    fn call_fn(&mut self, st: &mut State, f: Rc<Func>, args: &[V], ret: Option<u32>, next: Option<u32>) -> Rs<()> {
        if st.th[st.cur].frames.len() > 200 {
            return Err(self.bad_mem(st, "stack-overflow", 0, 0));
        }
        if !self.st.funcs.contains(&*f.name) {
            self.st.funcs.insert(f.name.to_string());
        }
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, (r, _)) in f.params.iter().enumerate() {
            regs[*r as usize] = args.get(i).cloned().unwrap_or(V::U);
        }
        let stk = st.mem.depth.get(st.cur).copied().unwrap_or(0);
        st.th[st.cur].frames.push(Rc::new(Frame { f, pc: 0, cur: 0, regs, ret, next, stk }));
        Ok(())
    }

    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> Rs<()> {
        let tid = st.cur;
        let fr = st.th[tid].frames.pop().unwrap();
        if tid < st.mem.depth.len() {
            st.mem.pop_stack(tid, fr.stk);
        }
        if st.th[tid].frames.is_empty() {
            return self.thread_done(st);
        }
        if let (Some(r), Some(v)) = (fr.ret, v) {
            self.set(st, r, v);
        }
        match fr.next {
            Some(b) => self.jump(st, b)?,
            None => self.next(st),
        }
        Ok(())
    }

    fn thread_done(&mut self, st: &mut State) -> Rs<()> {
        let tid = st.cur;
        st.th[tid].done = true;
        match (st.mode, tid) {
            (_, 0) => Err(Stop::Done),
            (Mode::Writer, 1) => {
                self.begin_reader(st)
            }
            (Mode::Reader, 2) => {
                st.mode = Mode::Seq;
                st.mem.start_tracking(false);
                st.logidx = Rc::new(HashMap::default());
                st.cur = 0;
                self.next(st);
                Ok(())
            }
            (Mode::Inter, _) => {
                let o = if st.three { 4 - tid } else { 3 - tid };
                st.segs.push((tid, u64::MAX));
                if st.th[o].done && st.three {
                    return self.begin_reader(st);
                }
                if st.th[o].done {
                    st.mode = Mode::Seq;
                    st.mem.start_tracking(false);
                    st.cur = 0;
                    self.next(st);
                } else {
                    st.cur = o;
                }
                Ok(())
            }
            _ => Err(Stop::Fatal("thread end".into())),
        }
    }

    fn begin_reader(&mut self, st: &mut State) -> Rs<()> {
        // freeze the log, start the reader
        let mut ix: HashMap<u64, Vec<u32>> = HashMap::default();
        for (j, l) in st.log.iter().enumerate() {
            ix.entry(l.addr >> crate::ir::SLOT_BITS).or_default().push(j as u32);
        }
        self.st.max_log = self.st.max_log.max(st.log.len() as u64);
        if st.log.len() >= 60000 {
            return Err(Stop::Limit("writer log too long".into()));
        }
        st.logidx = Rc::new(ix);
        st.mode = Mode::Reader;
        st.cur = 2;
        self.epochs += 1;
        st.epoch = self.epochs;
        st.visited.clear();
        st.mem.start_tracking(true);
        let (f, a) = st.f1.clone();
        self.start_thread(st, 2, f, a)
    }

    fn start_thread(&mut self, st: &mut State, tid: usize, f: u64, a: V) -> Rs<()> {
        let name = self.m.func_at(f).ok_or_else(|| Stop::Fatal("thread function".into()))?;
        let f = self.m.func(&name).map_err(Stop::Fatal)?.ok_or_else(|| Stop::Fatal("thread function body".into()))?;
        while st.th.len() <= tid {
            st.th.push(Th { frames: vec![], hooks: 0, done: false, choice_at: u64::MAX, retire_at: u64::MAX, clock: 0 });
        }
        let save = st.cur;
        st.cur = tid;
        st.mem.alloca(tid, 8, 8, false); // make the spaces of this thread exist
        st.mem.pop_stack(tid, 0);
        self.call_fn(st, f, &[a], None, None)?;
        st.cur = save;
        Ok(())
    }

    /// Is this thread in a wait in which no other thread gets to run? (Such a wait is over when the thread
    /// does something else than look at the few places it waits for.)
    fn stubborn(&self, st: &mut State) -> bool {
        if st.stub == 1 && (st.stub_at.0 != st.cur || st.th[st.cur].hooks - st.stub_at.1 > 8) {
            st.stub = 2;
            st.pauses = 0;
        }
        st.stub == 1
    }

    fn pause(&mut self, st: &mut State) -> Rs<bool> {
        if self.stubborn(st) {
            st.stub_at = (st.cur, st.th[st.cur].hooks);
            st.pauses += 1;
            if st.pauses > 20000 {
                return Err(Stop::Dead);
            }
            return Ok(false);
        }
        let waits = match st.mode {
            Mode::Reader => !st.weak.on && !st.three && st.cur == 2 && !st.tv.is_empty() && st.tv.last().unwrap().lo < st.log.len() as u32,
            Mode::Inter if st.cur > 0 => !st.th[if st.three { 4 - st.cur } else { 3 - st.cur }].done,
            _ => false,
        };
        if waits && st.stub == 0 && self.opts.stub {
            let mut o = st.clone();
            o.stub = 1;
            o.stub_at = (st.cur, st.th[st.cur].hooks);
            o.jumps = 0;
            o.mark = None;
            self.st.forks += 1;
            self.work.push(o);
        }
        match st.mode {
            Mode::Reader => {
                st.pause_pending = true;
                st.pauses += 1;
                if st.pauses > 20000 {
                    let m = st.model.clone();
                    self.report(st, "no-progress", 0, &m, "the reader spins although the writer can take no further step");
                    return Err(Stop::Viol);
                }
                Ok(false)
            }
            Mode::Inter if st.cur > 0 => {
                let o = if st.three { 4 - st.cur } else { 3 - st.cur };
                let c = st.cur;
                let (mark, cnt) = st.pause_mark[c];
                let cnt = if mark == st.stores { cnt + 1 } else { 0 };
                st.pause_mark[c] = (st.stores, cnt);
                if cnt > 5000 {
                    let m = st.model.clone();
                    self.report(st, "no-progress", 0, &m, "threads wait for each other forever");
                    return Err(Stop::Viol);
                }
                if !st.th[o].done {
                    return Ok(true);
                }
                Ok(false)
            }
            _ => {
                st.pauses += 1;
                if st.pauses > 20000 {
                    let m = st.model.clone();
                    self.report(st, "no-progress", 0, &m, "single thread spins forever");
                    return Err(Stop::Viol);
                }
                Ok(false)
            }
        }
    }

    fn panic_event(&mut self, st: &mut State, what: &str) -> Stop {
        if let Some(id) = st.expect_panic {
            *self.st.covers.entry(id).or_insert(0) += 1;
            self.st.panics_expected += 1;
            st.panicked = true;
            return Stop::Done;
        }
        let m = st.model.clone();
        self.report(st, "panic", 0, &m, what);
        Stop::Viol
    }

    fn step(&mut self, st: &mut State) -> Rs<()> {
        st.steps += 1;
        self.st.steps += 1;
        if st.steps > self.opts.max_steps {
            return Err(Stop::Limit("step limit on one path".into()));
        }
        self.ord = Ord::NA;
        self.rmw = false;
        if st.stalled {
            st.stalled = false;
            self.switch(st);
        }
        if st.weak.on {
            st.weak.hook0 = st.th[st.cur].hooks;
            st.weak.pos = 0;
            if st.weak.redo {
                st.weak.redo = false;
            } else {
                st.weak.force.clear();
            }
        }
        let fr = st.th[st.cur].frames.last().unwrap();
        let f = fr.f.clone();
        let pc = fr.pc as usize;
        let ins = &f.code[pc];
        match ins {
            I::Bin(op, d, ty, a, b) => {
                let (x, y) = (self.opv(st, a), self.opv(st, b));
                let r = if let Ty::Vec(n, t) = ty {
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        o.push(self.binv(*op, t.bits(), &agg(&x, i), &agg(&y, i))?);
                    }
                    V::A(Rc::new(o))
                } else {
                    if matches!(op, Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem) {
                        let ye = self.ex(&y, ty.bits())?;
                        let z = self.cx.con(ty.bits(), 0);
                        let q = self.cx.eq(ye, z);
                        let nq = self.cx.not(q);
                        self.must(st, nq, "division-by-zero", 0, "")?;
                    }
                    self.binv(*op, ty.bits(), &x, &y)?
                };
                self.set(st, *d, r);
                self.next(st);
            }
            I::Icmp(p, d, ty, a, b) => {
                let (x, y) = (self.opv(st, a), self.opv(st, b));
                let r = if let Ty::Vec(n, t) = ty {
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        o.push(self.icmp(*p, t.bits(), &agg(&x, i), &agg(&y, i))?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.icmp(*p, ty.bits(), &x, &y)?
                };
                self.set(st, *d, r);
                self.next(st);
            }
            I::Cast(k, d, from, to, a) => {
                let x = self.opv(st, a);
                let r = self.cast(*k, from, to, &x)?;
                self.set(st, *d, r);
                self.next(st);
            }
            I::Select(d, ct, ty, c, a, b) => {
                let (c, x, y) = (self.opv(st, c), self.opv(st, a), self.opv(st, b));
                let r = if let (Ty::Vec(..), Ty::Vec(n, t)) = (ct, ty) {
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        let cc = agg(&c, i);
                        o.push(self.select(&cc, t, &agg(&x, i), &agg(&y, i))?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.select(&c, ty, &x, &y)?
                };
                self.set(st, *d, r);
                self.next(st);
            }
            I::Load { dst, ty, p, ord, .. } => {
                let a = self.addr_of(st, p)?;
                self.ord = *ord;
                if self.hook(st, a, ty.size(), false)? {
                    return Ok(());
                }
                let mut t = None;
                let v = self.load(st, ty, a, &mut t)?;
                self.count_hook(st);
                self.set(st, *dst, v);
                self.next(st);
            }
            I::Store { ty, v, p, ord, .. } => {
                let a = self.addr_of(st, p)?;
                self.ord = *ord;
                let x = self.opv(st, v);
                let n = store_size(ty);
                if self.hook(st, a, n, true)? {
                    return Ok(());
                }
                self.log_write(st, a, n)?;
                self.store(st, ty, a, &x)?;
                self.count_hook(st);
                self.next(st);
            }
            I::Gep { dst, base, off, idx } => {
                let b = self.opv(st, base);
                let mut acc = self.binv(Op::Add, 64, &b, &V::C(*off as u64 as u128))?;
                for (o, w, scale) in idx.iter() {
                    let v = self.opv(st, o);
                    let v = match v {
                        V::C(x) => V::C((sext(x, *w) as u128) & mask(64)),
                        V::S(e) if *w < 64 => {
                            let r = self.cx.sext_e(e, 64);
                            self.mk(r)
                        }
                        V::S(e) if *w > 64 => {
                            let r = self.cx.trunc(e, 64);
                            self.mk(r)
                        }
                        x => x,
                    };
                    let m = self.binv(Op::Mul, 64, &v, &V::C(*scale as u64 as u128))?;
                    acc = self.binv(Op::Add, 64, &acc, &m)?;
                }
                self.set(st, *dst, acc);
                self.next(st);
            }
            I::Alloca { dst, size, align } => {
                let tid = st.cur;
                // the main thread's locals are reachable by both threads
                let shared = tid == 0;
                let (a, _) = st.mem.alloca(tid, *size, *align, shared);
                self.set(st, *dst, V::C(a as u128));
                self.next(st);
            }
            I::Br(b) => self.jump(st, *b)?,
            I::CondBr(c, t, e) => {
                let v = self.opv(st, c);
                let b = match v {
                    V::C(x) => x != 0,
                    V::S(x) => self.decide(st, x)?,
                    V::U => false,
                    _ => return Err(Stop::Fatal("branch on aggregate".into())),
                };
                self.jump(st, if b { *t } else { *e })?;
            }
            I::Switch(ty, o, def, cases) => {
                let v = self.opv(st, o);
                let w = ty.bits();
                let mut to = *def;
                match &v {
                    V::C(x) => {
                        for (k, b) in cases.iter() {
                            if k == x {
                                to = *b;
                            }
                        }
                    }
                    V::S(e) => {
                        // group by the model's value first
                        let x = self.ev(st, *e);
                        let mut hit = false;
                        let mut order: Vec<&(u128, u32)> = cases.iter().collect();
                        order.sort_by_key(|c| c.0 != x);
                        for (k, b) in order {
                            let kc = self.cx.con(w, *k);
                            let c = self.cx.eq(*e, kc);
                            if self.decide(st, c)? {
                                to = *b;
                                hit = true;
                                break;
                            }
                        }
                        let _ = hit;
                    }
                    _ => {}
                }
                self.jump(st, to)?;
            }
            I::Ret(v) => {
                let x = v.as_ref().map(|(_, o)| self.opv(st, o));
                self.do_ret(st, x)?;
            }
            I::Phi(..) => return Err(Stop::Fatal("phi reached".into())),
            I::ExtractValue(d, o, ix) => {
                let mut v = self.opv(st, o);
                for &i in ix.iter() {
                    v = agg(&v, i as usize);
                }
                self.set(st, *d, v);
                self.next(st);
            }
            I::InsertValue(d, ty, a, b, ix) => {
                let x = self.opv(st, a);
                let y = self.opv(st, b);
                let r = insert(&x, ty, &ix[..], y);
                self.set(st, *d, r);
                self.next(st);
            }
            I::Rmw { dst, k, ty, p, v, ord } => {
                let a = self.addr_of(st, p)?;
                self.ord = *ord;
                self.rmw = true;
                let x = self.opv(st, v);
                if self.hook(st, a, store_size(ty), true)? {
                    return Ok(());
                }
                let old = self.rmw(st, a, ty.bits(), *k, &x)?;
                self.count_hook(st);
                self.set(st, *dst, old);
                self.next(st);
            }
            I::Cmpxchg { dst, ty, p, e, n, succ, .. } => {
                let a = self.addr_of(st, p)?;
                self.ord = *succ;
                self.rmw = true;
                let ee = self.opv(st, e);
                let nn = self.opv(st, n);
                if self.hook(st, a, store_size(ty), true)? {
                    return Ok(());
                }
                let (old, ok) = self.cmpxchg(st, a, ty.bits(), &ee, &nn)?;
                self.count_hook(st);
                self.set(st, *dst, V::A(Rc::new(vec![old, ok])));
                self.next(st);
            }
            I::Fence(ord, single) => {
                if st.weak.on && !*single {
                    if st.mode == Mode::Writer && matches!(ord, Ord::Release | Ord::AcqRel | Ord::SeqCst) {
                        st.weak.fence = st.log.len() as u32;
                    }
                    if st.mode == Mode::Reader && matches!(ord, Ord::Acquire | Ord::AcqRel | Ord::SeqCst) {
                        st.weak.acq = st.weak.acq.max(st.weak.pend);
                    }
                }
                self.next(st);
            }
            I::Unreachable => {
                let m = st.model.clone();
                self.report(st, "undefined-behaviour", 0, &m, "unreachable instruction executed");
                return Err(Stop::Viol);
            }
            I::Freeze(d, _, o) | I::Copy(d, o) => {
                let v = self.opv(st, o);
                self.set(st, *d, v);
                self.next(st);
            }
            I::ExtractElem(d, _, v, i) => {
                let x = self.opv(st, v);
                let i = self.opv(st, i);
                let i = self.concretize(st, &i, 64)?;
                self.set(st, *d, agg(&x, i as usize));
                self.next(st);
            }
            I::InsertElem(d, ty, v, e, i) => {
                let x = self.opv(st, v);
                let y = self.opv(st, e);
                let i = self.opv(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = insert(&x, ty, &[i as u32], y);
                self.set(st, *d, r);
                self.next(st);
            }
            I::Shuffle(d, ty, a, b, m) => {
                let x = self.opv(st, a);
                let y = self.opv(st, b);
                let n = ty.count() as i32;
                let o: Vec<V> = m
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            V::C(0)
                        } else if k < n {
                            agg(&x, k as usize)
                        } else {
                            agg(&y, (k - n) as usize)
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(o)));
                self.next(st);
            }
            I::Call { dst, ret, callee, args, noreturn, next } => {
                return self.call(st, *dst, ret, callee, args, *noreturn, *next);
            }
            I::Unsupported(s) => return Err(Stop::Fatal(format!("unsupported instruction: {s}"))),
        }
        Ok(())
    }

    fn rmw_op(&mut self, w: u32, k: RmwK, old: &V, x: &V) -> Rs<V> {
        Ok(match k {
            RmwK::Xchg => x.clone(),
            RmwK::Add => self.binv(Op::Add, w, old, x)?,
            RmwK::Sub => self.binv(Op::Sub, w, old, x)?,
            RmwK::And => self.binv(Op::And, w, old, x)?,
            RmwK::Or => self.binv(Op::Or, w, old, x)?,
            RmwK::Xor => self.binv(Op::Xor, w, old, x)?,
            RmwK::Nand => {
                let r = self.binv(Op::And, w, old, x)?;
                self.binv(Op::Xor, w, &r, &V::C(mask(w)))?
            }
            RmwK::Max | RmwK::Min | RmwK::Umax | RmwK::Umin => {
                let c = match k {
                    RmwK::Max => self.binv(Op::Slt, w, x, old)?,
                    RmwK::Min => self.binv(Op::Slt, w, old, x)?,
                    RmwK::Umax => self.binv(Op::Ult, w, x, old)?,
                    _ => self.binv(Op::Ult, w, old, x)?,
                };
                self.select(&c, &Ty::I(w), old, x)?
            }
        })
    }

    fn rmw(&mut self, st: &mut State, a: u64, w: u32, k: RmwK, x: &V) -> Rs<V> {
        let n = bytes_of(w);
        let ty = Ty::I(w);
        if st.mode == Mode::Reader && !st.weak.on && matches!(k, RmwK::Add | RmwK::Sub) && !self.overlaps(st, a, n as u64).is_empty()
        {
            // commutative update of a location the writer also updates
            let mut t = None;
            let old = self.load(st, &ty, a, &mut t)?;
            let d = if k == RmwK::Add { x.clone() } else { self.binv(Op::Sub, w, &V::C(0), x)? };
            let de = self.ex(&d, w)?;
            let (s, id, off, _) = self.access(st, a, n as u64, true)?;
            let fv = self.final_val(st, s, id, off, n);
            let nv = self.binv(Op::Add, w, &fv, &d)?;
            self.put(st, s, id, off, n, &nv)?;
            let prev = st.overlay.get(&a).map(|p| p.1);
            let acc = match prev {
                Some(p) => self.cx.bin(Op::Add, p, de),
                None => de,
            };
            st.overlay.insert(a, (w, acc));
            return Ok(old);
        }
        self.log_write(st, a, n as u64)?;
        let mut t = None;
        let old = self.load(st, &ty, a, &mut t)?;
        let nv = self.rmw_op(w, k, &old, x)?;
        self.store(st, &ty, a, &nv)?;
        self.own(st, a, n as u64);
        Ok(old)
    }

    fn cmpxchg(&mut self, st: &mut State, a: u64, w: u32, e: &V, n: &V) -> Rs<(V, V)> {
        let ty = Ty::I(w);
        if st.mode == Mode::Reader {
            self.log_write(st, a, bytes_of(w) as u64)?;
        }
        let mut t = None;
        let old = self.load(st, &ty, a, &mut t)?;
        let ok = self.icmp(Pred::Eq, w, &old, e)?;
        let ok = match ok {
            V::C(x) => x != 0,
            V::S(c) => self.decide(st, c)?,
            _ => false,
        };
        if ok {
            if st.mode != Mode::Reader {
                self.log_write(st, a, bytes_of(w) as u64)?;
            }
            self.store(st, &ty, a, n)?;
            self.own(st, a, bytes_of(w) as u64);
        }
        Ok((old, V::C(ok as u128)))
    }

    /// The weak-memory reader wrote here itself: it reads its own store from now on.
    fn own(&mut self, st: &mut State, a: u64, n: u64) {
        if st.weak.on && st.mode == Mode::Reader {
            for x in a..a + n {
                st.weak.own.insert(x);
            }
        }
    }

    // ---------------------------------------------------------------- calls

    fn call(
        &mut self,
        st: &mut State,
        dst: Option<u32>,
        ret: &Ty,
        callee: &Callee,
        args: &Rc<Vec<(Ty, O)>>,
        noreturn: bool,
        next: Option<u32>,
    ) -> Rs<()> {
        let name: Rc<str> = match callee {
            Callee::Name(n) => n.clone(),
            Callee::Val(o) => {
                let a = self.addr_of(st, o)?;
                match self.m.func_at(a) {
                    Some(n) => n.into(),
                    None => return Err(self.bad_mem(st, "call-of-invalid-function", a, 0)),
                }
            }
            Callee::Asm(s) => {
                if s.is_empty() {
                    // compiler barrier or black_box: output = input
                    let v = args.first().map(|a| self.opv(st, &a.1));
                    if let (Some(d), Some(v)) = (dst, v) {
                        self.set(st, d, v);
                    }
                    self.next(st);
                    return Ok(());
                }
                return Err(Stop::Fatal(format!("inline asm {s}")));
            }
        };
        let _ = &self.icache;
        if noreturn {
            return Err(self.panic_event(st, &demangle(&name)));
        }
        let av: Vec<V> = args.iter().map(|a| self.opv(st, &a.1)).collect();
        let fin = |s: &Self, st: &mut State, v: Option<V>| -> Rs<()> {
            if let (Some(d), Some(v)) = (dst, v) {
                s.set(st, d, v);
            }
            Ok(())
        };
        if let Some(r) = self.intrinsic(st, &name, &av, args, ret)? {
            match r {
                Intr::Val(v) => {
                    fin(self, st, v)?;
                    match next {
                        Some(b) => self.jump(st, b)?,
                        None => self.next(st),
                    }
                }
                Intr::Handled => {}
            }
            return Ok(());
        }
        let f = self.m.func(&name).map_err(Stop::Fatal)?;
        match f {
            Some(f) => self.call_fn(st, f, &av, dst, next),
            None => Err(Stop::Fatal(format!("call of external function {name}"))),
        }
    }

    fn input(&mut self, st: &mut State, name: String, w: u32) -> E {
        self.nvar += 1;
        let e = self.cx.var(&name, w);
        st.inputs.push(Input { name, e: vec![e] });
        e
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], args: &[(Ty, O)], ret: &Ty) -> Rs<Option<Intr>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.llvm(st, n, a, args, ret).map(Some);
        }
        if name.contains("std_detect6detect5cache21detect_and_initialize") {
            return Ok(Some(Intr::Val(Some(V::C(cpu_features(st.cpu))))));
        }
        let w = |_s: &Self| 64u32;
        match name {
            "memcpy" | "memmove" => {
                let d = self.concretize(st, &a[0], 64)? as u64;
                let s = self.concretize(st, &a[1], 64)? as u64;
                let n = self.concretize(st, &a[2], w(self))? as u64;
                self.memcpy(st, d, s, n)?;
                return Ok(Some(Intr::Val(Some(a[0].clone()))));
            }
            "memset" => {
                let d = self.concretize(st, &a[0], 64)? as u64;
                let n = self.concretize(st, &a[2], 64)? as u64;
                let b = self.cast(CastK::Trunc, &Ty::I(32), &Ty::I(8), &a[1])?;
                self.memset(st, d, &b, n)?;
                return Ok(Some(Intr::Val(Some(a[0].clone()))));
            }
            "memcmp" | "bcmp" => {
                let x = self.concretize(st, &a[0], 64)? as u64;
                let y = self.concretize(st, &a[1], 64)? as u64;
                let n = self.concretize(st, &a[2], 64)? as u64;
                let v = self.memcmp(st, x, y, n, name == "memcmp")?;
                return Ok(Some(Intr::Val(Some(v))));
            }
            "sched_yield" | "nanosleep" | "clock_nanosleep" => {
                if self.pause(st)? {
                    self.set_ret_zero(st);
                    self.switch(st);
                    return Ok(Some(Intr::Handled));
                }
                return Ok(Some(Intr::Val(Some(V::C(0)))));
            }
            "clock_gettime" => {
                let p = self.concretize(st, &a[1], 64)? as u64;
                let t = &mut st.th[st.cur].clock;
                *t += 300_000;
                let t = *t;
                self.store(st, &Ty::I(64), p, &V::C(1000 + (t / 1_000_000_000) as u128))?;
                self.store(st, &Ty::I(64), p + 8, &V::C((t % 1_000_000_000) as u128))?;
                return Ok(Some(Intr::Val(Some(V::C(0)))));
            }
            "getrandom" => {
                // fixed seeds: hash tables order the same on every run
                let p = self.concretize(st, &a[0], 64)? as u64;
                let n = self.concretize(st, &a[1], 64)? as u64;
                self.memset(st, p, &V::C(0x5a), n)?;
                return Ok(Some(Intr::Val(Some(V::C(n as u128)))));
            }
            "write" => return Ok(Some(Intr::Val(Some(a[2].clone())))),
            "__cxa_thread_atexit_impl" | "pthread_setspecific" => return Ok(Some(Intr::Val(Some(V::C(0))))),
            "pthread_key_create" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                self.store(st, &Ty::I(32), p, &V::C(1))?;
                return Ok(Some(Intr::Val(Some(V::C(0)))));
            }
            "abort" => return Err(self.panic_event(st, "abort")),
            _ => {}
        }
        let Some(n) = name.strip_prefix("vs_") else { return Ok(None) };
        let one = |v: V| Ok(Some(Intr::Val(Some(v))));
        let none = || Ok(Some(Intr::Val(None)));
        match n {
            "u64" => {
                let id = self.concretize(st, &a[0], 64)?;
                let e = self.input(st, format!("u{id}_{}", st.inputs.len()), 64);
                one(V::S(e))
            }
            "bytes" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let n = self.concretize(st, &a[1], 64)? as u64;
                if n == 0 {
                    st.inputs.push(Input { name: "b".into(), e: vec![] });
                    return none();
                }
                let (s, id, off, _) = self.access(st, p, n, true)?;
                let mut es = vec![];
                for i in 0..n {
                    let e = self.cx.var(&format!("b{}_{i}", st.inputs.len()), 8);
                    es.push(e);
                }
                for (i, &e) in es.iter().enumerate() {
                    self.put(st, s, id, off + i, 1, &V::S(e))?;
                }
                st.inputs.push(Input { name: format!("bytes{}", st.inputs.len()), e: es });
                none()
            }
            "choose" => {
                let n = self.concretize(st, &a[0], 64)?;
                let e = self.input(st, format!("choose_{}", st.inputs.len()), 64);
                let k = self.cx.con(64, n);
                let c = self.cx.bin(Op::Ult, e, k);
                st.pc.push(c);
                let v = self.cx.n(e).a;
                st.model.vals.insert(v, 0);
                one(V::S(e))
            }
            "part" => {
                let n = self.concretize(st, &a[0], 64)?;
                let v = self.opts.part as u128;
                if v >= n {
                    return Err(Stop::Fatal(format!("part {v} of {n}")));
                }
                let e = self.cx.con(64, v);
                st.inputs.push(Input { name: "part".into(), e: vec![e] });
                one(V::C(v))
            }
            "assume" => {
                let c = self.ex(&a[0], 1)?;
                self.assume(st, c)?;
                none()
            }
            "assert" => {
                let c = self.ex(&a[0], 1)?;
                let id = self.concretize(st, &a[1], 64)? as u64;
                self.st.asserts += 1;
                self.must(st, c, "assert", id, "")?;
                st.nassert += 1;
                none()
            }
            "cover" => {
                let id = self.concretize(st, &a[0], 64)? as u64;
                *self.st.covers.entry(id).or_insert(0) += 1;
                none()
            }
            "expect_panic" => {
                let id = self.concretize(st, &a[0], 64)? as u64;
                st.expect_panic = if id == 0 { None } else { Some(id) };
                none()
            }
            "conc" => {
                // concretise: case split over the values
                let v = self.concretize(st, &a[0], 64)?;
                one(V::C(v))
            }
            "symbolic" => one(V::C(1)),
            "cpu" => {
                st.cpu = self.concretize(st, &a[0], 64)? as u32;
                none()
            }
            "live" => one(V::C(st.mem.live() as u64 as u128)),
            "alloc" => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                let al = self.concretize(st, &a[1], 64)? as u64;
                if n + al > (1 << crate::ir::SLOT_BITS) {
                    return Err(Stop::Fatal(format!("allocation of {n} bytes")));
                }
                let shared = match st.mode {
                    Mode::Seq => true,
                    _ => false,
                };
                let p = st.mem.alloc(st.cur, n, al, shared);
                one(V::C(p as u128))
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64)? as u64;
                let n = self.concretize(st, &a[1], 64)? as u64;
                let al = self.concretize(st, &a[2], 64)? as u64;
                if self.hook(st, p, 1, true)? {
                    return Ok(Some(Intr::Handled));
                }
                self.free(st, p, n, al)?;
                self.count_hook(st);
                none()
            }
            "a128_load" => {
                let o = self.concretize(st, &a[1], 64)?;
                self.ord = ord_of(o);
                let p = self.concretize(st, &a[0], 64)? as u64;
                if self.hook(st, p, 16, false)? {
                    return Ok(Some(Intr::Handled));
                }
                self.align16(st, p)?;
                let mut t = None;
                let v = self.load(st, &Ty::I(128), p, &mut t)?;
                self.count_hook(st);
                one(v)
            }
            "a128_store" => {
                let o = self.concretize(st, &a[2], 64)?;
                self.ord = ord_of(o);
                let p = self.concretize(st, &a[0], 64)? as u64;
                if self.hook(st, p, 16, true)? {
                    return Ok(Some(Intr::Handled));
                }
                self.align16(st, p)?;
                self.log_write(st, p, 16)?;
                self.store(st, &Ty::I(128), p, &a[1])?;
                self.count_hook(st);
                none()
            }
            "a128_rmw" => {
                let o = self.concretize(st, &a[4], 64)?;
                self.ord = ord_of(o);
                self.rmw = true;
                let p = self.concretize(st, &a[0], 64)? as u64;
                if self.hook(st, p, 16, true)? {
                    return Ok(Some(Intr::Handled));
                }
                self.align16(st, p)?;
                let op = self.concretize(st, &a[1], 64)?;
                let k = match op {
                    0 => RmwK::Xchg,
                    1 => {
                        let (old, _) = self.cmpxchg(st, p, 128, &a[2], &a[3])?;
                        self.count_hook(st);
                        return one(old);
                    }
                    2 => RmwK::Add,
                    3 => RmwK::Sub,
                    4 => RmwK::And,
                    5 => RmwK::Or,
                    _ => RmwK::Xor,
                };
                let old = self.rmw(st, p, 128, k, &a[3])?;
                self.count_hook(st);
                one(old)
            }
            "run2" | "run3" => {
                let three = name.ends_with("run3");
                st.three = three;
                let mode = self.concretize(st, &a[0], 64)?;
                let f0 = self.concretize(st, &a[1], 64)? as u64;
                let f1 = self.concretize(st, &a[3], 64)? as u64;
                st.th.truncate(1);
                st.mem.globals.retain(|&id, _| (id as usize) < TLS_ID);
                st.log = Rc::new(vec![]);
                st.tv.clear();
                st.pct.clear();
                st.overlay.clear();
                st.last_t.clear();
                st.held_le.clear();
                st.held_gt.clear();
                st.entered_at = usize::MAX;
                st.reader_entered = false;
                st.jumps = 0;
                st.mark = None;
                st.pause_pending = false;
                st.pauses = 0;
                st.stub = 0;
                st.weak = Weak { on: mode == 512, ..Weak::default() };
                if three {
                    st.f1 = (self.concretize(st, &a[5], 64)? as u64, a[6].clone());
                }
                if mode == 0 || mode == 512 {
                    st.mode = Mode::Writer;
                    st.f1 = (f1, a[4].clone());
                    self.start_thread(st, 1, f0, a[2].clone())?;
                    st.cur = 1;
                } else {
                    st.mode = Mode::Inter;
                    self.epochs += 1;
                    st.epoch = self.epochs;
                    st.visited.clear();
                    st.mem.start_tracking(true);
                    st.preempt = 0;
                    st.asym = mode & 256 != 0;
                    let mode = mode & 255;
                    st.maxpre = if self.opts.preempt >= 0 { self.opts.preempt as u32 } else { mode as u32 };
                    st.segs.clear();
                    st.stores = 0;
                    st.pause_mark = [(0, 0); 4];
                    self.start_thread(st, 1, f0, a[2].clone())?;
                    let second = if three { 3 } else { 2 };
                    self.start_thread(st, second, f1, a[4].clone())?;
                    // which thread goes first is a schedule choice
                    if !st.asym {
                        let mut o = st.clone();
                        o.cur = second;
                        self.st.forks += 1;
                        self.work.push(o);
                    }
                    st.cur = 1;
                }
                Ok(Some(Intr::Handled))
            }
            "guard_new_collector" => {
                st.colls.push(Coll::default());
                one(V::C(st.colls.len() as u128 - 1))
            }
            "guard_enter" => {
                let c = self.concretize(st, &a[0], 64)? as usize;
                if self.hook(st, 8, 8, true)? {
                    return Ok(Some(Intr::Handled));
                }
                if st.mode == Mode::Reader && (!st.held_le.is_empty() || !st.held_gt.is_empty()) {
                    if st.reader_entered {
                        return Err(Stop::Fatal("second reader guard with pending retirements".into()));
                    }
                    st.reader_entered = true;
                    if st.weak.on {
                        // entering a guard is sequentially consistent
                        let lo = st.held_gt.iter().copied().max().unwrap_or(0).max(st.weak.acq);
                        if st.held_le.iter().any(|k| lo > k.0) {
                            return Err(Stop::Dead);
                        }
                        st.weak.acq = lo;
                        self.count_hook(st);
                        st.colls[c].active.push(READER_GID);
                        return one(V::C(READER_GID as u128));
                    }
                    let t = self.new_tvar(st);
                    st.entered_at = st.tv.len() - 1;
                    for k in st.held_le.clone() {
                        let kc = self.cx.con(16, k.0 as u128);
                        let c = self.cx.bin(Op::Ule, t, kc);
                        self.assume(st, c)?;
                    }
                    for k in st.held_gt.clone() {
                        let kc = self.cx.con(16, k as u128);
                        // after the stores that precede the retirement, perhaps before the next one
                        let c = self.cx.bin(Op::Ule, kc, t);
                        self.assume(st, c)?;
                    }
                    self.count_hook(st);
                    st.colls[c].active.push(READER_GID);
                    return one(V::C(READER_GID as u128));
                }
                let g = st.nguard;
                st.nguard += 1;
                st.colls[c].active.push(g);
                self.count_hook(st);
                one(V::C(g as u128))
            }
            "guard_leave" => {
                let c = self.concretize(st, &a[0], 64)? as usize;
                let g = self.concretize(st, &a[1], 64)? as u64;
                if self.hook(st, 8, 8, true)? {
                    return Ok(Some(Intr::Handled));
                }
                let k = &mut st.colls[c];
                k.active.retain(|&x| x != g);
                let mut drained = false;
                for r in k.retired.iter_mut() {
                    if r.holders.contains(&g) {
                        r.holders.retain(|&x| x != g);
                        drained |= r.holders.is_empty();
                    }
                }
                if drained && st.mode == Mode::Reader {
                    self.join_writer(st)?;
                }
                self.count_hook(st);
                none()
            }
            "guard_retire" => {
                let c = self.concretize(st, &a[0], 64)? as usize;
                let p = self.concretize(st, &a[1], 64)? as u64;
                let f = self.concretize(st, &a[2], 64)? as u64;
                if self.hook(st, 8, 8, true)? {
                    return Ok(Some(Intr::Handled));
                }
                let mut holders = st.colls[c].active.clone();
                if (st.mode == Mode::Writer && st.cur == 1) || (st.mode == Mode::Inter && st.three && st.cur > 0) {
                    // was the reader's guard active at this moment? decided symbolically, once
                    let c1 = st.cur;
                    let h = st.th[c1].hooks;
                    let t = st.log.len() as u32;
                    if !st.held_le.is_empty() {
                        // it was active at an earlier retirement
                        holders.push(READER_GID);
                    } else if st.th[c1].retire_at != h {
                        st.th[c1].retire_at = h;
                        let mut o = st.clone();
                        self.st.forks += 1;
                        // the other path: the guard is entered later
                        o.held_gt.push(t);
                        o.retry = 1;
                        self.work.push(o);
                        st.held_le.push((t, c1, h));
                        holders.push(READER_GID);
                    } else if st.retry == 1 {
                        st.retry = 0;
                    }
                    st.weak.held.push(holders.contains(&READER_GID));
                }
                st.colls[c].retired.push(Retired { ptr: p, f, holders });
                self.count_hook(st);
                none()
            }
            "guard_pop" => {
                let c = self.concretize(st, &a[0], 64)? as usize;
                let all = self.concretize(st, &a[1], 64)?;
                let pp = self.concretize(st, &a[2], 64)? as u64;
                let pf = self.concretize(st, &a[3], 64)? as u64;
                if self.hook(st, 8, 8, true)? {
                    return Ok(Some(Intr::Handled));
                }
                self.count_hook(st);
                let k = &mut st.colls[c];
                let i = k.retired.iter().position(|r| all != 0 || r.holders.is_empty());
                match i {
                    Some(i) => {
                        let r = k.retired.remove(i);
                        self.store(st, &Ty::Ptr, pp, &V::C(r.ptr as u128))?;
                        self.store(st, &Ty::Ptr, pf, &V::C(r.f as u128))?;
                        one(V::C(1))
                    }
                    None => one(V::C(0)),
                }
            }
            _ => Err(Stop::Fatal(format!("unknown runtime call vs_{n}"))),
        }
    }

    fn set_ret_zero(&mut self, st: &mut State) {
        let fr = st.th[st.cur].frames.last().unwrap();
        let f = fr.f.clone();
        let pc = fr.pc as usize;
        if let I::Call { dst, next, .. } = &f.code[pc] {
            if let Some(d) = dst {
                self.set(st, *d, V::C(0));
            }
            match next {
                Some(b) => {
                    let _ = self.jump(st, *b);
                }
                None => self.next(st),
            }
        }
    }
    fn switch(&mut self, st: &mut State) {
        let c = st.cur;
        let h = st.th[c].hooks;
        st.jumps = 0;
        st.mark = None;
        st.segs.push((c, h));
        st.cur = if st.three { 4 - c } else { 3 - c };
        self.st.switches += 1;
    }

    fn align16(&mut self, st: &mut State, p: u64) -> Rs<()> {
        if p & 15 != 0 {
            return Err(self.bad_mem(st, "misaligned-atomic", p, 16));
        }
        Ok(())
    }

    fn free(&mut self, st: &mut State, p: u64, n: u64, al: u64) -> Rs<()> {
        let Some((s @ Space::Heap(_), id)) = locate(p) else {
            return Err(self.bad_mem(st, "free-of-non-heap", p, n));
        };
        let Some(o) = st.mem.obj(s, id) else {
            return Err(self.bad_mem(st, "free-of-non-heap", p, n));
        };
        if o.base != p {
            return Err(self.bad_mem(st, "free-of-interior-pointer", p, n));
        }
        if o.life != Life::Alive {
            return Err(self.bad_mem(st, "double-free", p, n));
        }
        if o.size != n || o.align != al {
            return Err(self.bad_mem(st, "free-with-wrong-layout", p, n));
        }
        let shared = o.shared;
        let hook = st.th[st.cur].hooks;
        let mut ft = None;
        if (st.mode == Mode::Writer && st.cur == 1 || st.mode == Mode::Inter && st.three && st.cur > 0) && (shared || st.weak.on) {
            ft = Some(st.log.len() as u32);
            Rc::make_mut(&mut st.log).push(LogEnt { hook, tid: st.cur, addr: p, old: vec![], olds: vec![], free: true, rel: 0 });
        }
        if st.mode == Mode::Reader && shared && !st.log.is_empty() {
            self.join_writer(st)?;
        }
        let o = st.mem.obj_mut(s, id);
        o.life = Life::Freed;
        o.freed_at = ft;
        st.mem.live -= 1;
        st.stores += 1;
        Ok(())
    }

    fn llvm(&mut self, st: &mut State, n: &str, a: &[V], args: &[(Ty, O)], ret: &Ty) -> Rs<Intr> {
        let base = n.split('.').next().unwrap_or("");
        let ok = |v: V| Ok(Intr::Val(Some(v)));
        if n.starts_with("lifetime")
            || n.starts_with("dbg")
            || n.starts_with("experimental.noalias")
            || n.starts_with("prefetch")
            || n.starts_with("donothing")
            || n.starts_with("invariant")
        {
            return Ok(Intr::Val(None));
        }
        if n.starts_with("assume") {
            // a violated assumption is undefined behaviour
            if let V::S(_) | V::C(0) = a[0] {
                let c = self.ex(&a[0], 1)?;
                self.must(st, c, "undefined-behaviour", 1, "violated compiler assumption")?;
            }
            return Ok(Intr::Val(None));
        }
        if n.starts_with("threadlocal") {
            let p = self.concretize(st, &a[0], 64)? as u64;
            let p = self.thread_local(st, p)?;
            return Ok(Intr::Val(Some(V::C(p as u128))));
        }
        if n.starts_with("x86.sse2.pause") {
            if self.pause(st)? {
                self.set_ret_zero(st);
                self.switch(st);
                return Ok(Intr::Handled);
            }
            return Ok(Intr::Val(None));
        }
        if n == "trap" {
            return Err(self.panic_event(st, "trap"));
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.concretize(st, &a[0], 64)? as u64;
            let s = self.concretize(st, &a[1], 64)? as u64;
            let l = self.concretize(st, &a[2], 64)? as u64;
            if self.hook(st, s, l, false)? || self.hook(st, d, l, true)? {
                return Ok(Intr::Handled);
            }
            self.memcpy(st, d, s, l)?;
            return Ok(Intr::Val(None));
        }
        if n.starts_with("memset") {
            let d = self.concretize(st, &a[0], 64)? as u64;
            let l = self.concretize(st, &a[2], 64)? as u64;
            if self.hook(st, d, l, true)? {
                return Ok(Intr::Handled);
            }
            self.memset(st, d, &a[1], l)?;
            return Ok(Intr::Val(None));
        }
        if n.starts_with("is.constant") {
            return ok(V::C(0));
        }
        if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") {
            return ok(a[0].clone());
        }
        if n.starts_with("ptrmask") {
            let r = self.binv(Op::And, 64, &a[0], &a[1])?;
            return ok(r);
        }
        if n.starts_with("load.relative") {
            let b = self.concretize(st, &a[0], 64)? as u64;
            let o = self.concretize(st, &a[1], 64)? as u64;
            let mut t = None;
            let v = self.load(st, &Ty::I(32), b.wrapping_add(o), &mut t)?;
            let v = self.concretize(st, &v, 32)?;
            return ok(V::C(b.wrapping_add(sext(v, 32) as u64) as u128));
        }
        if n.starts_with("objectsize") {
            return ok(V::C(u64::MAX as u128));
        }
        if base == "vector" && n.starts_with("vector.reduce.") {
            let kind = n["vector.reduce.".len()..].split('.').next().unwrap();
            let Ty::Vec(cnt, et) = &args[0].0 else { return Err(Stop::Fatal("reduce".into())) };
            let w = et.bits();
            let op = match kind {
                "or" => Op::Or,
                "and" => Op::And,
                "add" => Op::Add,
                "xor" => Op::Xor,
                _ => return Err(Stop::Fatal(format!("reduce {kind}"))),
            };
            let mut acc = agg(&a[0], 0);
            for i in 1..*cnt as usize {
                acc = self.binv(op, w, &acc, &agg(&a[0], i))?;
            }
            return ok(acc);
        }
        if n.starts_with("x86.") {
            return self.x86(n, a, args);
        }
        // element-wise arithmetic
        let (lanes, et) = match &args[0].0 {
            Ty::Vec(k, t) => (Some(*k as usize), (**t).clone()),
            t => (None, t.clone()),
        };
        let _ = ret;
        match lanes {
            None => {
                let v = self.scalar(st, base, n, a, args, et.bits(), ret)?;
                ok(v)
            }
            Some(k) => {
                let mut o = vec![];
                for i in 0..k {
                    let la: Vec<V> = a.iter().map(|x| if let V::A(_) = x { agg(x, i) } else { x.clone() }).collect();
                    o.push(self.scalar(st, base, n, &la, args, et.bits(), ret)?);
                }
                ok(V::A(Rc::new(o)))
            }
        }
    }

    fn scalar(&mut self, st: &mut State, base: &str, n: &str, a: &[V], _args: &[(Ty, O)], w: u32, ret: &Ty) -> Rs<V> {
        let _ = &st;
        let cmp = match base {
            "umin" => Some((Op::Ult, true)),
            "umax" => Some((Op::Ult, false)),
            "smin" => Some((Op::Slt, true)),
            "smax" => Some((Op::Slt, false)),
            _ => None,
        };
        if let Some((op, min)) = cmp {
            let c = self.binv(op, w, &a[0], &a[1])?;
            return if min {
                self.select(&c, &Ty::I(w), &a[0], &a[1])
            } else {
                self.select(&c, &Ty::I(w), &a[1], &a[0])
            };
        }
        match base {
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = match ret {
                    Ty::I(w) => *w,
                    _ => 8,
                };
                let lt = self.binv(op, w, &a[0], &a[1])?;
                let eq = self.binv(Op::Eq, w, &a[0], &a[1])?;
                let t = Ty::I(rw);
                let r = self.select(&eq, &t, &V::C(0), &V::C(1))?;
                self.select(&lt, &t, &V::C(mask(rw)), &r)
            }
            "abs" => {
                let z = V::C(0);
                let c = self.binv(Op::Slt, w, &a[0], &z)?;
                let ng = self.binv(Op::Sub, w, &z, &a[0])?;
                self.select(&c, &Ty::I(w), &ng, &a[0])
            }
            "fshl" | "fshr" => {
                // (a:b) << c
                let m = V::C(w as u128);
                let c = self.binv(Op::Urem, w, &a[2], &m)?;
                let inv = self.binv(Op::Sub, w, &m, &c)?;
                let (l, r) = if base == "fshl" {
                    (self.binv(Op::Shl, w, &a[0], &c)?, self.binv(Op::Lshr, w, &a[1], &inv)?)
                } else {
                    (self.binv(Op::Shl, w, &a[0], &inv)?, self.binv(Op::Lshr, w, &a[1], &c)?)
                };
                self.binv(Op::Or, w, &l, &r)
            }
            "ctpop" => {
                if let V::C(x) = a[0] {
                    return Ok(V::C(x.count_ones() as u128));
                }
                let e = self.ex(&a[0], w)?;
                let mut acc = self.cx.con(w, 0);
                for i in 0..w {
                    let b = self.cx.extract(e, i, i);
                    let b = self.cx.zext(b, w);
                    acc = self.cx.bin(Op::Add, acc, b);
                }
                Ok(self.mk(acc))
            }
            "ctlz" | "cttz" => {
                if let V::C(x) = a[0] {
                    let v = if base == "ctlz" {
                        if x == 0 { w } else { x.leading_zeros() - (128 - w) }
                    } else if x == 0 {
                        w
                    } else {
                        x.trailing_zeros()
                    };
                    return Ok(V::C(v as u128));
                }
                let e = self.ex(&a[0], w)?;
                let mut acc = self.cx.con(w, w as u128);
                for k in 0..w {
                    let i = if base == "ctlz" { k } else { w - 1 - k };
                    let b = self.cx.extract(e, i, i);
                    let v = self.cx.con(w, if base == "ctlz" { (w - 1 - i) as u128 } else { i as u128 });
                    acc = self.cx.ite(b, v, acc);
                }
                Ok(self.mk(acc))
            }
            "bswap" => {
                let e = self.ex(&a[0], w)?;
                let r = self.bswap(e);
                Ok(self.mk(r))
            }
            "bitreverse" => {
                if let V::C(x) = a[0] {
                    return Ok(V::C(x.reverse_bits() >> (128 - w)));
                }
                let e = self.ex(&a[0], w)?;
                let mut acc: Option<E> = None;
                for i in 0..w {
                    let b = self.cx.extract(e, i, i);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.cx.concat(h, b),
                    });
                }
                Ok(self.mk(acc.unwrap()))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let sat = n.contains(".sat");
                let x = self.ex(&a[0], w)?;
                let y = self.ex(&a[1], w)?;
                let (op, signed) = match base {
                    "uadd" => (Op::Add, false),
                    "usub" => (Op::Sub, false),
                    "umul" => (Op::Mul, false),
                    "sadd" => (Op::Add, true),
                    "ssub" => (Op::Sub, true),
                    _ => (Op::Mul, true),
                };
                let r = self.cx.bin(op, x, y);
                let ov = if base == "usub" {
                    self.cx.bin(Op::Ult, x, y)
                } else if base == "uadd" {
                    self.cx.bin(Op::Ult, r, x)
                } else {
                    let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                    if w2 > 128 {
                        // only concrete operands
                        let (Some(p), Some(q)) = (self.cx.cv(x), self.cx.cv(y)) else {
                            return Err(Stop::Fatal("wide overflow".into()));
                        };
                        let o = p.checked_mul(q).map(|v| v > mask(w)).unwrap_or(true);
                        self.cx.con(1, o as u128)
                    } else {
                        let (xx, yy) = if signed {
                            (self.cx.sext_e(x, w2), self.cx.sext_e(y, w2))
                        } else {
                            (self.cx.zext(x, w2), self.cx.zext(y, w2))
                        };
                        let full = self.cx.bin(op, xx, yy);
                        let back = if signed { self.cx.sext_e(r, w2) } else { self.cx.zext(r, w2) };
                        let e = self.cx.eq(full, back);
                        self.cx.not(e)
                    }
                };
                if sat {
                    let lim = match base {
                        "usub" => self.cx.con(w, 0),
                        "uadd" => self.cx.con(w, mask(w)),
                        _ => return Err(Stop::Fatal("signed saturation".into())),
                    };
                    let r = self.cx.ite(ov, lim, r);
                    return Ok(self.mk(r));
                }
                let (r, ov) = (self.mk(r), self.mk(ov));
                Ok(V::A(Rc::new(vec![r, ov])))
            }
            _ => Err(Stop::Fatal(format!("intrinsic llvm.{n}"))),
        }
    }

    fn x86(&mut self, n: &str, a: &[V], args: &[(Ty, O)]) -> Rs<Intr> {
        if n.contains("movmsk") || n.contains("pmovmskb") {
            let Ty::Vec(k, t) = &args[0].0 else { return Err(Stop::Fatal("movmsk".into())) };
            let w = t.bits();
            let mut acc: Option<E> = None;
            for i in 0..*k as usize {
                let e = self.ex(&agg(&a[0], i), w)?;
                let b = self.cx.extract(e, w - 1, w - 1);
                acc = Some(match acc {
                    None => b,
                    Some(lo) => self.cx.concat(b, lo),
                });
            }
            let r = self.cx.zext(acc.unwrap(), 32);
            return Ok(Intr::Val(Some(self.mk(r))));
        }
        Err(Stop::Fatal(format!("intrinsic llvm.{n}")))
    }
}

pub enum Intr {
    Val(Option<V>),
    Handled,
}

pub fn store_size(t: &Ty) -> u64 {
    match t {
        Ty::I(w) => bytes_of(*w) as u64,
        _ => t.size(),
    }
}

fn agg(v: &V, i: usize) -> V {
    match v {
        V::A(a) => a[i].clone(),
        V::C(0) => V::C(0),
        V::U => V::U,
        x => panic!("field {i} of scalar {x:?}"),
    }
}

fn insert(v: &V, ty: &Ty, ix: &[u32], x: V) -> V {
    if ix.is_empty() {
        return x;
    }
    let n = ty.count();
    let mut o: Vec<V> = match v {
        V::A(a) => a.to_vec(),
        _ => vec![V::C(0); n],
    };
    let i = ix[0] as usize;
    let ft = ty.field(i).1;
    o[i] = insert(&o[i].clone(), &ft, &ix[1..], x);
    V::A(Rc::new(o))
}

/// Readable form of a legacy-mangled Rust symbol.
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            break;
        }
        let p = &r[i..i + n];
        i += n;
        if p.len() == 17 && p.starts_with('h') {
            continue;
        }
        let p = p
            .replace("$LT$", "<")
            .replace("$GT$", ">")
            .replace("$u20$", " ")
            .replace("$RF$", "&")
            .replace("$C$", ",")
            .replace("$u7b$", "{")
            .replace("$u7d$", "}")
            .replace("..", "::");
        parts.push(p);
    }
    parts.join("::")
}

/// Resident memory of this process.
const MAX_MB: u64 = 6000;
fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
pub fn peak_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let l = s.lines().find(|l| l.starts_with("VmHWM")).unwrap_or("");
    l.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 1024
}
