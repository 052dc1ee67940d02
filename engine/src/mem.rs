//! Copy-on-write object memory.
use crate::expr::E;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x6000_0000_0000;
const TID_SHIFT: u32 = 40;
const CH: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life {
    Alive,
    Freed,
    Dead,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (0 = concrete)
    pub life: Life,
    /// Visible to other threads.
    pub shared: bool,
    /// Writer-log time at which it was freed (mode A).
    pub freed_at: Option<u32>,
}

impl Obj {
    pub fn new(base: u64, size: u64, align: u64, fill: u8, shared: bool) -> Self {
        Obj { base, size, align, data: vec![fill; size as usize], sym: vec![], life: Life::Alive, shared, freed_at: None }
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym[off..off + n].iter().any(|&e| e != 0)
    }
    pub fn put_con(&mut self, off: usize, n: usize, v: u128) {
        let b = v.to_le_bytes();
        self.data[off..off + n].copy_from_slice(&b[..n]);
        if !self.sym.is_empty() {
            for s in &mut self.sym[off..off + n] {
                *s = 0;
            }
        }
    }
    pub fn need_sym(&mut self) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.size as usize];
        }
    }
}

#[derive(Clone, Default)]
pub struct PVec {
    ch: Vec<Rc<Vec<Rc<Obj>>>>,
    len: usize,
}

impl PVec {
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        if i >= self.len {
            return None;
        }
        Some(&self.ch[i / CH][i % CH])
    }
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        let c = Rc::make_mut(&mut self.ch[i / CH]);
        Rc::make_mut(&mut c[i % CH])
    }
    pub fn push(&mut self, o: Obj) {
        if self.len % CH == 0 {
            self.ch.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.ch.last_mut().unwrap()).push(Rc::new(o));
        self.len += 1;
    }
    pub fn set(&mut self, i: usize, o: Obj) {
        let c = Rc::make_mut(&mut self.ch[i / CH]);
        c[i % CH] = Rc::new(o);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Space {
    Heap(usize),
    Stack(usize),
    Global,
}

#[derive(Clone, Default)]
pub struct Mem {
    pub heap: Vec<PVec>,
    pub stack: Vec<PVec>,
    pub depth: Vec<usize>,
    pub globals: std::collections::BTreeMap<u32, Rc<Obj>>,
    pub live: i64,
    /// objects changed since the threads started (when `track`)
    pub dirty: Rc<std::collections::BTreeSet<(Space, usize)>>,
    pub track: bool,
}

pub fn locate(a: u64) -> Option<(Space, usize)> {
    let id = ((a >> crate::ir::SLOT_BITS) & 0xf_ffff) as usize;
    if (HEAP_BASE..HEAP_BASE + (16 << TID_SHIFT)).contains(&a) {
        return Some((Space::Heap(((a - HEAP_BASE) >> TID_SHIFT) as usize), id));
    }
    if (STACK_BASE..STACK_BASE + (16 << TID_SHIFT)).contains(&a) {
        return Some((Space::Stack(((a - STACK_BASE) >> TID_SHIFT) as usize), id));
    }
    if (crate::ir::GLOBAL_BASE..crate::ir::GLOBAL_BASE + (1 << 40)).contains(&a) {
        return Some((Space::Global, id));
    }
    None
}

impl Mem {
    #[inline]
    fn touch(&mut self, s: Space, id: usize) {
        if self.track && !self.dirty.contains(&(s, id)) {
            Rc::make_mut(&mut self.dirty).insert((s, id));
        }
    }
    pub fn start_tracking(&mut self, on: bool) {
        self.track = on;
        self.dirty = Rc::default();
    }
    fn ensure(&mut self, tid: usize) {
        while self.heap.len() <= tid {
            self.heap.push(PVec::default());
            self.stack.push(PVec::default());
            self.depth.push(0);
        }
    }
    pub fn alloc(&mut self, tid: usize, size: u64, align: u64, shared: bool) -> u64 {
        self.ensure(tid);
        let id = self.heap[tid].len() as u64;
        let base = HEAP_BASE + ((tid as u64) << TID_SHIFT) + (id << crate::ir::SLOT_BITS) + align.max(16);
        self.heap[tid].push(Obj::new(base, size, align, 0xA5, shared));
        self.live += 1;
        self.touch(Space::Heap(tid), id as usize);
        base
    }
    pub fn alloca(&mut self, tid: usize, size: u64, align: u64, shared: bool) -> (u64, usize) {
        self.ensure(tid);
        let d = self.depth[tid];
        let base = STACK_BASE + ((tid as u64) << TID_SHIFT) + ((d as u64) << crate::ir::SLOT_BITS) + align.max(16);
        let o = Obj::new(base, size, align, 0x5A, shared);
        if d < self.stack[tid].len() {
            self.stack[tid].set(d, o);
        } else {
            self.stack[tid].push(o);
        }
        self.depth[tid] = d + 1;
        self.touch(Space::Stack(tid), d);
        (base, d)
    }
    pub fn pop_stack(&mut self, tid: usize, to: usize) {
        for i in to..self.depth[tid] {
            self.stack[tid].get_mut(i).life = Life::Dead;
        }
        self.depth[tid] = to;
    }
    pub fn obj(&self, s: Space, id: usize) -> Option<&Rc<Obj>> {
        match s {
            Space::Heap(t) => self.heap.get(t)?.get(id),
            Space::Stack(t) => self.stack.get(t)?.get(id),
            Space::Global => self.globals.get(&(id as u32)),
        }
    }
    pub fn obj_mut(&mut self, s: Space, id: usize) -> &mut Obj {
        self.touch(s, id);
        match s {
            Space::Heap(t) => self.heap[t].get_mut(id),
            Space::Stack(t) => self.stack[t].get_mut(id),
            Space::Global => Rc::make_mut(self.globals.get_mut(&(id as u32)).unwrap()),
        }
    }
    pub fn live(&self) -> i64 {
        self.live
    }
}
