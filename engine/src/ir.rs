//! Parser for the textual LLVM IR that rustc emits. Functions are parsed on demand.
use crate::expr::{fold, mask, Op};
use std::cell::RefCell;
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes (for integers: rounded up to the alignment).
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u128),
    A(Rc<Vec<O>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord {
    NA,
    Unordered,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bit,
    P2I,
    I2P,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwK {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    Umax,
    Umin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Val(O),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u32, Ty, O, O),
    Icmp(Pred, u32, Ty, O, O),
    Cast(CastK, u32, Ty, Ty, O),
    Select(u32, Ty, Ty, O, O, O),
    Load { dst: u32, ty: Ty, p: O, ord: Ord, align: u32 },
    Store { ty: Ty, v: O, p: O, ord: Ord, align: u32 },
    Gep { dst: u32, base: O, off: i64, idx: Rc<Vec<(O, u32, i64)>> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Rc<Vec<(Ty, O)>>, noreturn: bool, next: Option<u32> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<(Ty, O)>),
    Phi(u32, Rc<Vec<(O, u32)>>),
    ExtractValue(u32, O, Rc<Vec<u32>>),
    InsertValue(u32, Ty, O, O, Rc<Vec<u32>>),
    Rmw { dst: u32, k: RmwK, ty: Ty, p: O, v: O, ord: Ord },
    Cmpxchg { dst: u32, ty: Ty, p: O, e: O, n: O, succ: Ord, fail: Ord },
    Fence(Ord, bool),
    Unreachable,
    Freeze(u32, Ty, O),
    ExtractElem(u32, Ty, O, O),
    InsertElem(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Rc<Vec<i32>>),
    Copy(u32, O),
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub code: Vec<I>,
    pub blocks: Vec<u32>,
    pub ret: Ty,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub off: usize, // text offset of the initializer (0: external)
    pub ext: bool,
    pub constant: bool,
}

pub const GLOBAL_BASE: u64 = 0x2000_0000_0000;
pub const FUNC_BASE: u64 = 0x5555_0000_0000;
pub const SLOT_BITS: u32 = 20;

pub struct Module {
    pub text: String,
    pub defs: HashMap<String, (usize, usize)>,
    pub funcs: RefCell<HashMap<String, Rc<Func>>>,
    pub func_names: RefCell<Vec<String>>,
    pub func_idx: RefCell<HashMap<String, u32>>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub noreturn: HashSet<String>,
    pub noret_groups: HashSet<u32>,
}

pub struct Lx<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), i: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest()))
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]).into_owned()
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w {
            true
        } else {
            self.i = k;
            false
        }
    }
    pub fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            if self.i >= self.s.len() {
                return;
            }
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }
    /// name after a sigil: quoted or plain
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
            {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    pub fn string(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if let Ok(v) = u8::from_str_radix(h, 16) {
                    o.push(v);
                    self.i += 3;
                    continue;
                }
            }
            o.push(self.s[self.i]);
            self.i += 1;
        }
        self.i += 1;
        o
    }
}

fn is_type_start(w: &str, c: u8) -> bool {
    if matches!(c, b'{' | b'[' | b'<' | b'%') {
        return true;
    }
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "opaque" => true,
        _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()),
    }
}

struct FnCx<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
}

impl FnCx<'_> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or_else(|| format!("unknown block {n}"))
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            text: String::new(),
            defs: HashMap::default(),
            funcs: Default::default(),
            func_names: Default::default(),
            func_idx: Default::default(),
            globals: vec![],
            gidx: HashMap::default(),
            types: HashMap::default(),
            noreturn: HashSet::default(),
            noret_groups: HashSet::default(),
        };
        let mut pos = 0;
        let mut cur: Option<(String, usize)> = None;
        let mut decls: Vec<(String, Vec<u32>)> = vec![];
        let mut type_lines: Vec<(String, usize)> = vec![];
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = find_at(line).ok_or_else(|| format!("no name in {line}"))?;
                let mut lx = Lx::new(line);
                lx.i = at + 1;
                let n = lx.name();
                // attribute groups after the parameter list
                lx.ws();
                lx.skip_balanced();
                let tail = &line[lx.i..];
                let groups: Vec<u32> = tail
                    .split_whitespace()
                    .filter_map(|w| w.strip_prefix('#').and_then(|d| d.parse().ok()))
                    .collect();
                decls.push((n.clone(), groups));
                if line.starts_with("define ") {
                    cur = Some((n, st));
                }
            } else if line.starts_with('}') {
                if let Some((n, s)) = cur.take() {
                    m.defs.insert(n, (s, pos));
                }
            } else if cur.is_none() && line.starts_with('@') {
                let mut lx = Lx::new(line);
                lx.i = 1;
                let n = lx.name();
                m.gidx.insert(n.clone(), m.globals.len() as u32);
                m.globals.push(GlobalDef { name: n, ty: Ty::Other, off: st + lx.i, ext: false, constant: false });
            } else if cur.is_none() && line.starts_with('%') {
                let mut lx = Lx::new(line);
                lx.i = 1;
                let n = lx.name();
                if let Some(k) = line.find("= type ") {
                    type_lines.push((n, st + k + 7));
                }
            } else if line.starts_with("attributes #") {
                let id: u32 = line[12..].split_whitespace().next().unwrap().parse().map_err(|_| "attr")?;
                if line.contains(" noreturn ") {
                    m.noret_groups.insert(id);
                }
            }
        }
        for (n, g) in decls {
            if g.iter().any(|x| m.noret_groups.contains(x)) {
                m.noreturn.insert(n);
            }
        }
        m.text = text;
        for (n, off) in type_lines {
            let s = line_at(&m.text, off);
            let mut lx = Lx::new(s);
            if let Ok(t) = m.ty(&mut lx) {
                m.types.insert(n, t);
            }
        }
        // global headers
        let mut gs = std::mem::take(&mut m.globals);
        for g in gs.iter_mut() {
            let base = g.off;
            let s = line_at(&m.text, base);
            let mut lx = Lx::new(s);
            lx.expect(b'=')?;
            loop {
                let w = lx.word();
                if w == "global" || w == "constant" {
                    g.constant = w == "constant";
                    break;
                }
                if w == "alias" || w == "ifunc" {
                    g.ext = true;
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    g.ext = true;
                }
                if lx.peek() == b'(' {
                    lx.skip_balanced();
                }
                if w.is_empty() {
                    return Err(format!("global header: {}", &s[..s.len().min(120)]));
                }
            }
            if let Ok(t) = m.ty(&mut lx) {
                g.ty = t;
            }
            g.off = base + lx.i;
        }
        m.globals = gs;
        Ok(m)
    }

    pub fn global_addr(&self, name: &str) -> Option<u64> {
        if let Some(&i) = self.gidx.get(name) {
            let g = &self.globals[i as usize];
            let a = g.ty.align().max(1).max(8);
            return Some(GLOBAL_BASE + ((i as u64) << SLOT_BITS) + a.max(16));
        }
        Some(self.func_addr(name))
    }
    pub fn func_addr(&self, name: &str) -> u64 {
        let mut ix = self.func_idx.borrow_mut();
        let i = *ix.entry(name.to_string()).or_insert_with(|| {
            let mut v = self.func_names.borrow_mut();
            v.push(name.to_string());
            v.len() as u32 - 1
        });
        FUNC_BASE + (i as u64) * 16
    }
    pub fn func_at(&self, addr: u64) -> Option<String> {
        if addr < FUNC_BASE || (addr - FUNC_BASE) % 16 != 0 {
            return None;
        }
        self.func_names.borrow().get(((addr - FUNC_BASE) / 16) as usize).cloned()
    }
    /// Initial bytes of a global.
    pub fn global_bytes(&self, i: u32) -> R<Vec<u8>> {
        let g = &self.globals[i as usize];
        let n = g.ty.size() as usize;
        let mut out = vec![0u8; n];
        if g.ext {
            return Ok(out);
        }
        let s = line_at(&self.text, g.off);
        let mut lx = Lx::new(s);
        self.init(&mut lx, &g.ty.clone(), &mut out)?;
        Ok(out)
    }
    fn init(&self, lx: &mut Lx, t: &Ty, out: &mut [u8]) -> R<()> {
        let c = lx.peek();
        if c == b'c' && lx.s.get(lx.i + 1) == Some(&b'"') {
            lx.i += 1;
            let s = lx.string();
            out[..s.len()].copy_from_slice(&s);
            return Ok(());
        }
        let w = lx.peek_word();
        if w == "zeroinitializer" || w == "undef" || w == "poison" {
            lx.word();
            return Ok(());
        }
        if c == b'<' || c == b'{' || c == b'[' {
            let mut depth = 0;
            while matches!(lx.peek(), b'<' | b'{' | b'[') && depth < 2 {
                let cc = lx.peek();
                lx.i += 1;
                depth += 1;
                if cc != b'<' {
                    break;
                }
                if lx.peek() != b'{' {
                    break;
                }
            }
            for k in 0..t.count() {
                let (o, ft) = t.field(k);
                let tt = self.ty(lx)?;
                let sz = ft.size() as usize;
                debug_assert_eq!(tt.size() as usize, sz);
                self.init(lx, &tt, &mut out[o as usize..o as usize + sz])?;
                lx.eat(b',');
            }
            while matches!(lx.peek(), b'>' | b'}' | b']') && depth > 0 {
                lx.i += 1;
                depth -= 1;
            }
            return Ok(());
        }
        let v = self.konst(lx, t)?;
        if let O::C(v) = v {
            let n = out.len().min(16);
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            Ok(())
        } else {
            Err("aggregate initializer".into())
        }
    }

    pub fn ty(&self, lx: &mut Lx) -> R<Ty> {
        let c = lx.peek();
        let mut t = match c {
            b'{' => {
                lx.i += 1;
                let mut f = vec![];
                while !lx.eat(b'}') {
                    f.push(self.ty(lx)?);
                    lx.eat(b',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                lx.i += 1;
                let n: u64 = lx.word().parse().map_err(|_| "array len")?;
                if !lx.eat_word("x") {
                    return Err("array x".into());
                }
                let t = self.ty(lx)?;
                lx.expect(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                lx.i += 1;
                if lx.peek() == b'{' {
                    let t = self.ty(lx)?;
                    lx.expect(b'>')?;
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => return Err("packed".into()),
                    }
                } else {
                    let n: u32 = lx.word().parse().map_err(|_| format!("vec len {}", lx.rest()))?;
                    if !lx.eat_word("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty(lx)?;
                    lx.expect(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                lx.i += 1;
                let n = lx.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = lx.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Other,
                    "double" | "half" | "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if is_type_start(w, 0) => Ty::I(w[1..].parse().unwrap()),
                    _ => return Err(format!("type {w:?} {}", lx.rest())),
                }
            }
        };
        if lx.peek() == b'*' {
            lx.i += 1;
            t = Ty::Ptr;
        }
        Ok(t)
    }

    fn skip_attrs(&self, lx: &mut Lx, stop_at_type: bool) {
        loop {
            let c = lx.peek();
            if !(c.is_ascii_alphabetic()) {
                if c == b'"' {
                    // string attribute
                    lx.string();
                    if lx.eat(b'=') {
                        lx.ws();
                        lx.string();
                    }
                    continue;
                }
                return;
            }
            let w = lx.peek_word();
            if stop_at_type && is_type_start(w, 0) {
                return;
            }
            if !stop_at_type && is_const_word(w) {
                return;
            }
            if !stop_at_type && w == "c" {
                return;
            }
            lx.word();
            if w == "align" {
                if lx.peek() != b'(' {
                    lx.word();
                    continue;
                }
            }
            if w == "addrspace" || lx.s.get(lx.i) == Some(&b'(') {
                lx.ws();
                lx.skip_balanced();
            }
        }
    }

    /// Constant operand (no registers).
    fn konst(&self, lx: &mut Lx, t: &Ty) -> R<O> {
        let c = lx.peek();
        if c == b'@' {
            lx.i += 1;
            let n = lx.name();
            return Ok(O::C(self.global_addr(&n).unwrap() as u128));
        }
        if c == b'-' || c.is_ascii_digit() {
            let w = lx.word();
            let v: u128 = if let Some(x) = w.strip_prefix('-') {
                x.parse::<u128>().map(|v| v.wrapping_neg()).map_err(|_| format!("num {w}"))?
            } else {
                match w.parse::<u128>() {
                    Ok(v) => v,
                    Err(_) => {
                        // 256-bit constants only appear split; reject
                        return Err(format!("num {w}"));
                    }
                }
            };
            return Ok(O::C(v & mask(t.bits())));
        }
        if c == b'c' && lx.s.get(lx.i + 1) == Some(&b'"') {
            lx.i += 1;
            let s = lx.string();
            return Ok(O::A(Rc::new(s.into_iter().map(|b| O::C(b as u128)).collect())));
        }
        if matches!(c, b'<' | b'{' | b'[') {
            let packed = c == b'<' && matches!(t, Ty::Struct(..));
            lx.i += 1;
            if packed {
                lx.expect(b'{')?;
            }
            let mut v = vec![];
            while !matches!(lx.peek(), b'>' | b'}' | b']') {
                let tt = self.ty(lx)?;
                v.push(self.konst(lx, &tt)?);
                lx.eat(b',');
            }
            lx.i += 1;
            if packed {
                lx.expect(b'>')?;
            }
            return Ok(O::A(Rc::new(v)));
        }
        let w = lx.word();
        match w {
            "true" => Ok(O::C(1)),
            "false" => Ok(O::C(0)),
            "null" | "none" => Ok(O::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
            "splat" => {
                lx.expect(b'(')?;
                let tt = self.ty(lx)?;
                let v = self.konst(lx, &tt)?;
                lx.expect(b')')?;
                Ok(O::A(Rc::new(vec![v; t.count()])))
            }
            "getelementptr" => {
                while lx.peek() != b'(' {
                    let w = lx.word();
                    if w.is_empty() {
                        return Err("gep const".into());
                    }
                    if w == "inrange" {
                        lx.ws();
                        lx.skip_balanced();
                    }
                }
                lx.expect(b'(')?;
                let bt = self.ty(lx)?;
                lx.expect(b',')?;
                let pt = self.ty(lx)?;
                let O::C(base) = self.konst(lx, &pt)? else { return Err("gep base".into()) };
                let mut addr = base as u64;
                let mut first = true;
                let mut cur = bt;
                while lx.eat(b',') {
                    lx.eat_word("inrange");
                    let it = self.ty(lx)?;
                    let O::C(ix) = self.konst(lx, &it)? else { return Err("gep idx".into()) };
                    let ix = crate::expr::sext(ix, it.bits()) as i64;
                    if first {
                        addr = addr.wrapping_add((ix.wrapping_mul(cur.size() as i64)) as u64);
                        first = false;
                    } else {
                        let (o, ft) = match &cur {
                            Ty::Struct(..) => cur.field(ix as usize),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => ((ix * t.size() as i64) as u64, (**t).clone()),
                            _ => return Err("gep into scalar".into()),
                        };
                        addr = addr.wrapping_add(o);
                        cur = ft;
                    }
                }
                lx.expect(b')')?;
                Ok(O::C(addr as u128))
            }
            "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "sext" => {
                lx.expect(b'(')?;
                let tt = self.ty(lx)?;
                let O::C(v) = self.konst(lx, &tt)? else { return Err("cast const".into()) };
                if !lx.eat_word("to") {
                    return Err("cast to".into());
                }
                let to = self.ty(lx)?;
                lx.expect(b')')?;
                let v = if w == "sext" { crate::expr::sext(v, tt.bits()) as u128 } else { v };
                Ok(O::C(v & mask(to.bits())))
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while lx.peek() != b'(' {
                    lx.word();
                }
                lx.expect(b'(')?;
                let tt = self.ty(lx)?;
                let O::C(a) = self.konst(lx, &tt)? else { return Err("bin const".into()) };
                lx.expect(b',')?;
                let t2 = self.ty(lx)?;
                let O::C(b) = self.konst(lx, &t2)? else { return Err("bin const".into()) };
                lx.expect(b')')?;
                Ok(O::C(fold(binop(w).unwrap(), tt.bits(), a, b)))
            }
            _ => Err(format!("const {w:?} {}", lx.rest())),
        }
    }
    fn zero(&self, t: &Ty) -> O {
        match t {
            Ty::Struct(f, _) => O::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            Ty::Arr(n, e) => O::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Vec(n, e) => O::A(Rc::new(vec![self.zero(e); *n as usize])),
            _ => O::C(0),
        }
    }

    pub fn func(&self, name: &str) -> R<Option<Rc<Func>>> {
        if let Some(f) = self.funcs.borrow().get(name) {
            return Ok(Some(f.clone()));
        }
        let Some(&(s, e)) = self.defs.get(name) else { return Ok(None) };
        let f = self.parse_func(name, &self.text[s..e]).map_err(|x| format!("{name}: {x}"))?;
        let f = Rc::new(f);
        self.funcs.borrow_mut().insert(name.to_string(), f.clone());
        Ok(Some(f))
    }

    fn parse_func(&self, name: &str, text: &str) -> R<Func> {
        let mut cx = FnCx { m: self, regs: HashMap::default(), blocks: HashMap::default(), nregs: 0 };
        // logical lines
        let mut lines: Vec<String> = vec![];
        let mut in_switch = false;
        let mut it = text.lines();
        let header = it.next().unwrap();
        for l in it {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if in_switch {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if t.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if t.starts_with("to label ") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                if let Some(last) = lines.last_mut() {
                    last.push(' ');
                    last.push_str(t);
                }
                continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                in_switch = true;
            }
            lines.push(l.to_string());
        }
        // header: ret type and params
        let at = find_at(header).unwrap();
        let mut lx = Lx::new(header);
        lx.word(); // define
        loop {
            let c = lx.peek();
            let w = lx.peek_word();
            if is_type_start(w, c) {
                break;
            }
            if w.is_empty() {
                return Err("header".into());
            }
            lx.word();
            if w == "align" {
                lx.word();
                continue;
            }
            if lx.s.get(lx.i) == Some(&b'(') {
                lx.skip_balanced();
            }
        }
        let ret = self.ty(&mut lx)?;
        lx.i = at + 1;
        lx.name();
        lx.expect(b'(')?;
        let mut params = vec![];
        while !lx.eat(b')') {
            if lx.peek() == b'.' {
                lx.word();
                continue;
            }
            let t = self.ty(&mut lx)?;
            self.skip_attrs(&mut lx, false);
            if lx.eat(b'%') {
                let n = lx.name();
                let r = cx.reg(&n);
                params.push((r, t));
            } else {
                let n = format!("{}", params.len());
                let r = cx.reg(&n);
                params.push((r, t));
            }
            lx.eat(b',');
        }
        // block names
        let mut blocks: Vec<u32> = vec![];
        let mut first = true;
        for l in &lines {
            if !l.starts_with(' ') {
                let mut lx = Lx::new(l);
                let n = lx.name();
                cx.blocks.insert(n, blocks.len() as u32);
                blocks.push(0);
                first = false;
            } else if first {
                cx.blocks.insert(format!("{}", params.len()), 0);
                blocks.push(0);
                first = false;
            }
        }
        let mut code = vec![];
        let mut b = 0usize;
        let mut started = false;
        for l in &lines {
            if !l.starts_with(' ') {
                let bi = if started || b > 0 { b } else { 0 };
                blocks[bi] = code.len() as u32;
                b = bi + 1;
                started = true;
                continue;
            }
            if !started {
                blocks[0] = 0;
                b = 1;
                started = true;
            }
            match self.instr(&mut cx, l) {
                Ok(i) => code.push(i),
                Err(e) => code.push(I::Unsupported(format!("{e}: {}", l.trim()).into())),
            }
        }
        Ok(Func { name: name.into(), params, nregs: cx.nregs, code, blocks, ret })
    }

    fn val(&self, cx: &mut FnCx, lx: &mut Lx, t: &Ty) -> R<O> {
        if lx.peek() == b'%' {
            lx.i += 1;
            let n = lx.name();
            return Ok(O::R(cx.reg(&n)));
        }
        self.konst(lx, t)
    }
    fn tval(&self, cx: &mut FnCx, lx: &mut Lx) -> R<(Ty, O)> {
        let t = self.ty(lx)?;
        self.skip_attrs(lx, false);
        let v = self.val(cx, lx, &t)?;
        Ok((t, v))
    }
    fn label(&self, cx: &mut FnCx, lx: &mut Lx) -> R<u32> {
        if !lx.eat_word("label") {
            return Err("label".into());
        }
        lx.expect(b'%')?;
        let n = lx.name();
        cx.block(&n)
    }

    fn instr(&self, cx: &mut FnCx, line: &str) -> R<I> {
        let _ = cx.m;
        let mut lx = Lx::new(line);
        let lx = &mut lx;
        let mut dst = None;
        if lx.peek() == b'%' {
            lx.i += 1;
            let n = lx.name();
            lx.expect(b'=')?;
            dst = Some(cx.reg(&n));
        }
        let op = lx.word();
        let d = dst.unwrap_or(u32::MAX);
        if let Some(b) = binop(op) {
            while matches!(lx.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                lx.word();
            }
            let t = self.ty(lx)?;
            let a = self.val(cx, lx, &t)?;
            lx.expect(b',')?;
            let c = self.val(cx, lx, &t)?;
            return Ok(I::Bin(b, d, t, a, c));
        }
        match op {
            "icmp" => {
                if lx.peek_word() == "samesign" {
                    lx.word();
                }
                let p = match lx.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("icmp {x}")),
                };
                let t = self.ty(lx)?;
                let a = self.val(cx, lx, &t)?;
                lx.expect(b',')?;
                let b = self.val(cx, lx, &t)?;
                Ok(I::Icmp(p, d, t, a, b))
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" => {
                while matches!(lx.peek_word(), "nuw" | "nsw" | "nneg") {
                    lx.word();
                }
                let (t, v) = self.tval(cx, lx)?;
                if !lx.eat_word("to") {
                    return Err("cast".into());
                }
                let to = self.ty(lx)?;
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "bitcast" => CastK::Bit,
                    "ptrtoint" => CastK::P2I,
                    _ => CastK::I2P,
                };
                Ok(I::Cast(k, d, t, to, v))
            }
            "select" => {
                let (ct, c) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (t, a) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, b) = self.tval(cx, lx)?;
                Ok(I::Select(d, ct, t, c, a, b))
            }
            "load" => {
                let atomic = lx.eat_word("atomic");
                lx.eat_word("volatile");
                let t = self.ty(lx)?;
                lx.expect(b',')?;
                let (_, p) = self.tval(cx, lx)?;
                let mut ord = Ord::NA;
                if atomic {
                    ord = self.ordering(lx)?;
                }
                let align = self.align_of(lx);
                Ok(I::Load { dst: d, ty: t, p, ord, align })
            }
            "store" => {
                let atomic = lx.eat_word("atomic");
                lx.eat_word("volatile");
                let (t, v) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, p) = self.tval(cx, lx)?;
                let mut ord = Ord::NA;
                if atomic {
                    ord = self.ordering(lx)?;
                }
                let align = self.align_of(lx);
                Ok(I::Store { ty: t, v, p, ord, align })
            }
            "getelementptr" => {
                while matches!(lx.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    lx.word();
                }
                let mut cur = self.ty(lx)?;
                lx.expect(b',')?;
                let (bt, base) = self.tval(cx, lx)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tval(cx, lx)?;
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur.clone() {
                            Ty::Struct(..) => {
                                let O::C(k) = v else { return Err("gep struct idx".into()) };
                                let (o, ft) = cur.field(k as usize);
                                off += o as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size() as i64;
                                cur = (**t).clone();
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    match v {
                        O::C(k) => off = off.wrapping_add((crate::expr::sext(k, it.bits()) as i64).wrapping_mul(scale)),
                        v => idx.push((v, it.bits(), scale)),
                    }
                }
                Ok(I::Gep { dst: d, base, off, idx: Rc::new(idx) })
            }
            "alloca" => {
                let t = self.ty(lx)?;
                let mut al = t.align();
                let mut n = 1u64;
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        al = lx.word().parse().map_err(|_| "align")?;
                    } else if lx.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = self.tval(cx, lx)?;
                        let O::C(k) = v else { return Err("dynamic alloca".into()) };
                        n = k as u64;
                    }
                }
                Ok(I::Alloca { dst: d, size: t.size() * n, align: al })
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.word();
                }
                self.call(cx, lx, dst, op == "invoke")
            }
            "br" => {
                if lx.peek_word() == "label" {
                    Ok(I::Br(self.label(cx, lx)?))
                } else {
                    let (_, c) = self.tval(cx, lx)?;
                    lx.expect(b',')?;
                    let a = self.label(cx, lx)?;
                    lx.expect(b',')?;
                    let b = self.label(cx, lx)?;
                    Ok(I::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let def = self.label(cx, lx)?;
                lx.expect(b'[')?;
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.tval(cx, lx)?;
                    let O::C(k) = k else { return Err("switch case".into()) };
                    lx.expect(b',')?;
                    cases.push((k, self.label(cx, lx)?));
                }
                Ok(I::Switch(t, v, def, Rc::new(cases)))
            }
            "ret" => {
                if lx.eat_word("void") {
                    return Ok(I::Ret(None));
                }
                let (t, v) = self.tval(cx, lx)?;
                Ok(I::Ret(Some((t, v))))
            }
            "phi" => {
                let t = self.ty(lx)?;
                let mut v = vec![];
                loop {
                    lx.expect(b'[')?;
                    let x = self.val(cx, lx, &t)?;
                    lx.expect(b',')?;
                    lx.expect(b'%')?;
                    let n = lx.name();
                    let b = cx.block(&n)?;
                    lx.expect(b']')?;
                    v.push((x, b));
                    if !lx.eat(b',') || lx.peek() != b'[' {
                        break;
                    }
                }
                Ok(I::Phi(d, Rc::new(v)))
            }
            "extractvalue" => {
                let (_, v) = self.tval(cx, lx)?;
                let mut p = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    p.push(lx.word().parse().map_err(|_| "extractvalue")?);
                }
                Ok(I::ExtractValue(d, v, Rc::new(p)))
            }
            "insertvalue" => {
                let (t, v) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, e) = self.tval(cx, lx)?;
                let mut p = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    p.push(lx.word().parse().map_err(|_| "insertvalue")?);
                }
                Ok(I::InsertValue(d, t, v, e, Rc::new(p)))
            }
            "atomicrmw" => {
                lx.eat_word("volatile");
                let k = match lx.word() {
                    "xchg" => RmwK::Xchg,
                    "add" => RmwK::Add,
                    "sub" => RmwK::Sub,
                    "and" => RmwK::And,
                    "nand" => RmwK::Nand,
                    "or" => RmwK::Or,
                    "xor" => RmwK::Xor,
                    "max" => RmwK::Max,
                    "min" => RmwK::Min,
                    "umax" => RmwK::Umax,
                    "umin" => RmwK::Umin,
                    x => return Err(format!("rmw {x}")),
                };
                let (_, p) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (ty, v) = self.tval(cx, lx)?;
                let ord = self.ordering(lx)?;
                Ok(I::Rmw { dst: d, k, ty, p, v, ord })
            }
            "cmpxchg" => {
                lx.eat_word("weak");
                lx.eat_word("volatile");
                let (_, p) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (ty, e) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, n) = self.tval(cx, lx)?;
                let succ = self.ordering(lx)?;
                let fail = self.ordering(lx)?;
                Ok(I::Cmpxchg { dst: d, ty, p, e, n, succ, fail })
            }
            "fence" => {
                let single = lx.peek_word() == "syncscope";
                let o = self.ordering(lx)?;
                Ok(I::Fence(o, single))
            }
            "unreachable" => Ok(I::Unreachable),
            "freeze" => {
                let (t, v) = self.tval(cx, lx)?;
                Ok(I::Freeze(d, t, v))
            }
            "extractelement" => {
                let (t, v) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, i) = self.tval(cx, lx)?;
                Ok(I::ExtractElem(d, t, v, i))
            }
            "insertelement" => {
                let (t, v) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, e) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, i) = self.tval(cx, lx)?;
                Ok(I::InsertElem(d, t, v, e, i))
            }
            "shufflevector" => {
                let (t, a) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, b) = self.tval(cx, lx)?;
                lx.expect(b',')?;
                let (_, m) = self.tval(cx, lx)?;
                let O::A(m) = m else { return Err("shuffle mask".into()) };
                let m = m.iter().map(|x| if let O::C(v) = x { *v as i32 } else { 0 }).collect();
                Ok(I::Shuffle(d, t, a, b, Rc::new(m)))
            }
            _ => Err(format!("opcode {op}")),
        }
    }

    fn align_of(&self, lx: &mut Lx) -> u32 {
        while lx.eat(b',') {
            if lx.eat_word("align") {
                return lx.word().parse().unwrap_or(1);
            }
            if lx.peek() == b'!' {
                break;
            }
        }
        1
    }
    fn ordering(&self, lx: &mut Lx) -> R<Ord> {
        if lx.peek_word() == "syncscope" {
            lx.word();
            lx.ws();
            lx.skip_balanced();
        }
        match lx.word() {
            "unordered" => Ok(Ord::Unordered),
            "monotonic" => Ok(Ord::Relaxed),
            "acquire" => Ok(Ord::Acquire),
            "release" => Ok(Ord::Release),
            "acq_rel" => Ok(Ord::AcqRel),
            "seq_cst" => Ok(Ord::SeqCst),
            x => Err(format!("ordering {x:?} {}", lx.rest())),
        }
    }

    fn call(&self, cx: &mut FnCx, lx: &mut Lx, dst: Option<u32>, invoke: bool) -> R<I> {
        self.skip_attrs(lx, true);
        let ret = self.ty(lx)?;
        if lx.peek() == b'(' {
            lx.skip_balanced();
        }
        let callee = match lx.peek() {
            b'@' => {
                lx.i += 1;
                Callee::Name(lx.name().into())
            }
            b'%' => {
                lx.i += 1;
                let n = lx.name();
                Callee::Val(O::R(cx.reg(&n)))
            }
            _ => {
                let w = lx.peek_word();
                if w == "asm" {
                    lx.word();
                    while lx.peek() != b'"' {
                        lx.word();
                    }
                    let s = String::from_utf8_lossy(&lx.string()).into_owned();
                    lx.expect(b',')?;
                    lx.ws();
                    lx.string();
                    Callee::Asm(s.into())
                } else {
                    Callee::Val(self.konst(lx, &Ty::Ptr)?)
                }
            }
        };
        lx.expect(b'(')?;
        let mut args = vec![];
        while !lx.eat(b')') {
            let w = lx.peek_word();
            if w == "metadata" {
                lx.word();
                // skip to , or )
                let mut depth = 0;
                loop {
                    let c = lx.peek();
                    match c {
                        b'(' | b'{' | b'[' => depth += 1,
                        b')' if depth == 0 => break,
                        b')' | b'}' | b']' => depth -= 1,
                        b',' if depth == 0 => break,
                        0 => break,
                        _ => {}
                    }
                    lx.i += 1;
                }
                args.push((Ty::Other, O::C(0)));
            } else {
                args.push(self.tval(cx, lx)?);
            }
            lx.eat(b',');
        }
        let mut noreturn = false;
        // call-site attribute groups
        let tail = std::str::from_utf8(&lx.s[lx.i..]).unwrap_or("");
        for w in tail.split(|c: char| c.is_whitespace() || c == ',') {
            if let Some(d) = w.strip_prefix('#') {
                if let Ok(k) = d.parse::<u32>() {
                    if self.noret_groups.contains(&k) {
                        noreturn = true;
                    }
                }
            }
        }
        if let Callee::Name(n) = &callee {
            if self.noreturn.contains(&**n) {
                noreturn = true;
            }
        }
        let mut next = None;
        if invoke {
            let k = tail.find("to label %").ok_or("invoke")?;
            let mut l2 = Lx::new(&tail[k + 9..]);
            l2.expect(b'%')?;
            let n = l2.name();
            next = Some(cx.block(&n)?);
        }
        Ok(I::Call { dst, ret, callee, args: Rc::new(args), noreturn, next })
    }
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr"
            | "inttoptr" | "ptrtoint" | "trunc" | "zext" | "sext" | "bitcast" | "add" | "sub" | "mul" | "xor" | "and"
            | "or" | "shl" | "lshr"
    )
}

pub fn binop(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::Udiv,
        "urem" => Op::Urem,
        "sdiv" => Op::Sdiv,
        "srem" => Op::Srem,
        "shl" => Op::Shl,
        "lshr" => Op::Lshr,
        "ashr" => Op::Ashr,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        _ => return None,
    })
}

pub fn line_at(t: &str, off: usize) -> &str {
    let e = t[off..].find('\n').map(|k| off + k).unwrap_or(t.len());
    &t[off..e]
}

/// Position of the '@' that starts the function name in a define/declare line.
pub fn find_at(line: &str) -> Option<usize> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'@' if !q => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}
