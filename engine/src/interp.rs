//! The symbolic interpreter: explicit state (frames + heap + path condition), forked at branches.
use crate::compile::*;
use crate::expr::*;
use crate::hooks::Flow;
use crate::mem::Alloc;
use crate::solver::{Ans, Solver};
use std::collections::HashMap;
use std::rc::Rc;

pub const HEAP_BASE: u32 = 0x1_0000;
pub const MAX_FRAMES: usize = 0x4000;

#[derive(Debug, Clone)]
pub enum Trap {
    Conc(E),
    Split(Vec<V>),
    Panic(String),
    Unsup(String),
    Infeasible,
    Done,
}
pub type R<T> = Result<T, Trap>;

#[derive(Clone, Copy, Debug)]
#[derive(PartialEq)]
pub enum RDest { None, Reg(u16), Pair(u16), Mem(u64) }

#[derive(Clone)]
pub struct Frame {
    pub code: &'static Code,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub mem: Alloc,
    pub ret: RDest,
    pub ret_bb: Option<u32>,
    pub loops: Vec<u32>, // iterations of the loops of `code` (their heads' visits)
}

#[derive(Clone, Debug)]
pub enum Pick { Var(u32), Choice(u32) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Option<Rc<Alloc>>>,
    pub free: Vec<u32>,
    pub over: HashMap<u32, Rc<Alloc>, Fx>,
    pub doms: Vec<(u32, Dom)>, // in pick order
    pub vpos: HashMap<u32, usize, Fx>,
    pub cons: Vec<E>,
    pub log: Vec<(E, crate::mdd::M)>, // every assumption, with the diagram before it
    pub fixed: HashMap<E, u128, Fx>,
    pub picks: Vec<Pick>,
    pub choice: Option<usize>,
    pub steps: u64,
    pub forks: u32,
    pub marks: Vec<String>,
    pub mdd: crate::mdd::M,  // path condition as a decision diagram
    pub exact: bool,         // the diagram is the whole path condition
    pub jobs: usize, // number of job-level splits already taken
}

#[derive(Clone)]
pub enum Arg { Z, S(V), P(V, V), M(u64, u64) }

pub struct Interp {
    pub solver: Solver,
    pub base: Vec<Rc<Alloc>>,
    pub work: Vec<State>,
    pub total_steps: u64,
    pub peak: usize,
    pub forks: u64,
    pub folded_checks: u64,
    pub solver_checks: u64,
    pub trace: bool,
    pub verbose: bool,
    pub tick: std::time::Instant,
    pub max_steps: u64,
    pub init_mode: bool,
    pub violations: Vec<Violation>,
    pub job_prefix: Vec<u32>, // fixed outcomes of the job-level splits
    pub split_seen: Option<u32>,
    pub split_limit: bool,
    pub merges: u64,
    pub deadline: Option<std::time::Instant>,
    pub diagram: u64,
    pub crosscheck: u64,
    pub reduced: u64,
    pub undecided: u64,
    pub rng: u64,
    pub crosschecked: u64,
    /// the conditions under which paths of the present case ended
    pub ends: Vec<(Vec<(E, crate::mdd::M)>, crate::mdd::M, bool)>,
    pub closed: [u64; 4],
    pub crossfail: u64,
    pub prof: bool,
    /// paths were given up because time ran out
    pub dropped: bool,
    pub forkprof: HashMap<String, u64>,
    pub no_merge: bool,
    pub res: crate::re::Regexes,
    pub covered: HashMap<u32, u64, Fx>,
}
#[derive(Clone, Debug)]
pub struct Violation { pub msg: String, pub inputs: Vec<u32>, pub stack: Vec<String>, pub marks: Vec<String> }

impl State {
    pub fn new() -> State {
        State { frames: vec![], heap: vec![], free: vec![], over: Default::default(), doms: vec![], vpos: Default::default(), cons: vec![], log: vec![], fixed: Default::default(), picks: vec![], choice: None, steps: 0, forks: 0, marks: vec![], mdd: crate::mdd::T, exact: true, jobs: 0 }
    }
    pub fn dom(&self, v: u32) -> Dom { self.doms[self.vpos[&v]].1 }
    #[inline(always)]
    pub fn fr(&self) -> &Frame { self.frames.last().unwrap() }
    #[inline(always)]
    pub fn frm(&mut self) -> &mut Frame { self.frames.last_mut().unwrap() }
    #[inline(always)]
    pub fn fbase(&self) -> u64 { (self.frames.len() as u64) << 32 }
    pub fn range(&self, e: E) -> (u128, u128) {
        if let Some(&c) = self.fixed.get(&e) { return (c, c); }
        if let Node::Tab(v, t) = &info(e).node {
            let d = self.dom(*v);
            let (mut lo, mut hi) = (u128::MAX, 0u128);
            for k in dom_iter(&d) { if k < t.len() { let x = t[k] as u128; lo = lo.min(x); hi = hi.max(x); } }
            return (lo, hi);
        }
        let mut memo: HashMap<E, (u128, u128), Fx> = Default::default();
        range_under(e, &|v| self.dom(v), &self.fixed, &mut memo)
    }
    /// constant under the path's domains?
    pub fn known(&self, v: V) -> Option<u128> {
        match v {
            V::C(c) => Some(c),
            V::S(e) => {
                let (l, h) = self.range(e);
                if l == h { return Some(l); }
                let md = crate::mdd::md();
                let b = if width(e) == 1 { V::S(e) } else if h == 1 && width(e) <= 8 { bin(Op::Eq, v, V::C(1), width(e)) } else { return None };
                match b {
                    V::C(c) => Some(c),
                    V::S(e) => {
                        let m = md.of(e)?;
                        let x = md.apply(0, self.mdd, m)?;
                        if x == crate::mdd::F { return Some(0); }
                        if x == self.mdd { return Some(1); }
                        None
                    }
                }
            }
        }
    }
    /// replace the values that follow from the newly fixed expression `x`
    fn settle(&mut self, x: E) {
        let mut memo: HashMap<E, bool, Fx> = Default::default();
        let mut fold = |st: &State, f: E| -> Option<u128> {
            if !mentions(f, x, &mut memo) { return None; }
            let (l, h) = st.range(f);
            if l == h { Some(l) } else { None }
        };
        for i in 0..self.frames.len() {
            for r in 0..self.frames[i].regs.len() {
                if let V::S(f) = self.frames[i].regs[r] { if let Some(c) = fold(self, f) { self.frames[i].regs[r] = V::C(c); } }
            }
            let todo: Vec<(u32, u8, u128)> = self.frames[i].mem.sym.iter().filter_map(|&(o, n, f)| fold(self, f).map(|c| (o, n, c))).collect();
            for (o, n, c) in todo { self.frames[i].mem.store(o as usize, n as usize, V::C(c)); }
        }
        for i in 0..self.heap.len() {
            let Some(a) = &self.heap[i] else { continue };
            let todo: Vec<(u32, u8, u128)> = a.sym.iter().filter_map(|&(o, n, f)| fold(self, f).map(|c| (o, n, c))).collect();
            if todo.is_empty() { continue; }
            let a = Rc::make_mut(self.heap[i].as_mut().unwrap());
            for (o, n, c) in todo { a.store(o as usize, n as usize, V::C(c)); }
        }
        let keys: Vec<u32> = self.over.keys().copied().collect();
        for k in keys {
            let todo: Vec<(u32, u8, u128)> = self.over[&k].sym.iter().filter_map(|&(o, n, f)| fold(self, f).map(|c| (o, n, c))).collect();
            if todo.is_empty() { continue; }
            let a = Rc::make_mut(self.over.get_mut(&k).unwrap());
            for (o, n, c) in todo { a.store(o as usize, n as usize, V::C(c)); }
        }
    }
    pub fn conc(&self, v: V) -> R<u128> {
        match v {
            V::C(c) => Ok(c),
            V::S(e) => self.known(v).ok_or(Trap::Conc(e)),
        }
    }
    pub fn stack(&self) -> Vec<String> {
        self.frames.iter().rev().take(12).map(|f| format!("{} (line {})", f.code.name, f.code.bbs[f.bb as usize].line)).collect()
    }
}

fn oob(addr: u64, n: u64) -> Trap { Trap::Unsup(format!("memory access out of bounds at {addr:#x} size {n}")) }

impl Interp {
    pub fn new() -> Interp {
        Interp { solver: Solver::new(), base: vec![], work: vec![], total_steps: 0, peak: 0, forks: 0, folded_checks: 0, solver_checks: 0, trace: false, verbose: std::env::var("MIRSYM_VERBOSE").is_ok(), tick: std::time::Instant::now(), max_steps: 50_000_000, init_mode: false, violations: vec![], job_prefix: vec![], split_seen: None, split_limit: false, merges: 0, deadline: None, dropped: false, forkprof: Default::default(), prof: std::env::var("MIRSYM_PROF").is_ok(), diagram: 0, crosscheck: std::env::var("MIRSYM_CROSS").ok().and_then(|s| s.parse().ok()).unwrap_or(997), reduced: 0, undecided: 0, rng: 0x9e3779b97f4a7c15, crosschecked: 0, ends: vec![], closed: [0; 4], crossfail: 0, no_merge: std::env::var("MIRSYM_NOMERGE").is_ok(), res: Default::default(), covered: Default::default() }
    }
    #[inline(always)]
    pub fn alloc<'a>(&'a self, st: &'a State, id: u32) -> R<&'a Alloc> {
        if id < HEAP_BASE {
            let i = id as usize;
            if i == 0 || i > st.frames.len() { return Err(Trap::Unsup(format!("dangling pointer, allocation {id}"))); }
            return Ok(&st.frames[i - 1].mem);
        }
        if id < CONST_BASE {
            let i = (id - HEAP_BASE) as usize;
            if i < self.base.len() {
                if !st.over.is_empty() { if let Some(a) = st.over.get(&id) { return Ok(a); } }
                return Ok(&self.base[i]);
            }
            return match st.heap.get(i - self.base.len()) { Some(Some(a)) => Ok(a), _ => Err(Trap::Unsup(format!("use of freed allocation {id:#x}"))) };
        }
        if id < FN_BASE {
            if !st.over.is_empty() { if let Some(a) = st.over.get(&id) { return Ok(a); } }
            let i = (id - CONST_BASE) as usize;
            return Ok(unsafe { &*Rc::as_ptr(&cp().mem[i]) });
        }
        Err(Trap::Unsup(format!("data access to code address {id:#x}")))
    }
    #[inline(always)]
    pub fn alloc_mut<'a>(&'a self, st: &'a mut State, id: u32) -> R<&'a mut Alloc> {
        if id < HEAP_BASE {
            let i = id as usize;
            if i == 0 || i > st.frames.len() { return Err(Trap::Unsup(format!("dangling pointer, allocation {id}"))); }
            return Ok(&mut st.frames[i - 1].mem);
        }
        if id < CONST_BASE {
            let i = (id - HEAP_BASE) as usize;
            if i >= self.base.len() {
                return match st.heap.get_mut(i - self.base.len()) { Some(Some(a)) => Ok(Rc::make_mut(a)), _ => Err(Trap::Unsup(format!("use of freed allocation {id:#x}"))) };
            }
            let src = &self.base[i];
            return Ok(Rc::make_mut(st.over.entry(id).or_insert_with(|| src.clone())));
        }
        if id < FN_BASE {
            let i = (id - CONST_BASE) as usize;
            return Ok(Rc::make_mut(st.over.entry(id).or_insert_with(|| cp().mem[i].clone())));
        }
        Err(Trap::Unsup(format!("store to code address {id:#x}")))
    }
    #[inline(always)]
    pub fn load(&self, st: &State, addr: u64, n: usize) -> R<V> {
        let a = self.alloc(st, (addr >> 32) as u32)?;
        let o = addr as u32 as usize;
        if o + n > a.data.len() { return Err(oob(addr, n as u64)); }
        Ok(a.load(o, n))
    }
    /// load through a possibly symbolic address
    pub fn loadv(&self, st: &State, addr: V, n: usize) -> R<V> {
        match addr {
            V::C(c) => self.load(st, c as u64, n),
            V::S(e) => {
                if let Some(c) = st.known(addr) { return self.load(st, c as u64, n); }
                if let Some((v, t)) = as_tab(e) {
                    if n <= 8 {
                        let d = st.dom(v);
                        let mut out = vec![0u64; t.len()];
                        let mut last = 0;
                        let mut ok = true;
                        for i in 0..t.len() {
                            if dom_has(&d, i) {
                                match self.load(st, t[i], n) { Ok(V::C(c)) => { out[i] = c as u64; last = c as u64; } _ => { ok = false; break; } }
                            }
                        }
                        // values outside the path's domain are never observed
                        if ok { for i in 0..t.len() { if !dom_has(&d, i) { out[i] = last; } } return Ok(tab(v, out, n as u8 * 8)); }
                    }
                }
                Err(Trap::Conc(e))
            }
        }
    }
    #[inline(always)]
    pub fn store(&self, st: &mut State, addr: u64, n: usize, v: V) -> R<()> {
        let a = self.alloc_mut(st, (addr >> 32) as u32)?;
        let o = addr as u32 as usize;
        if o + n > a.data.len() { return Err(oob(addr, n as u64)); }
        a.store(o, n, v);
        Ok(())
    }
    pub fn copy(&self, st: &mut State, src: u64, dst: u64, n: usize) -> R<()> {
        if n == 0 || src == dst { return Ok(()); }
        let a = self.alloc(st, (src >> 32) as u32)?;
        let o = src as u32 as usize;
        if o + n > a.data.len() { return Err(oob(src, n as u64)); }
        if a.sym.is_empty() && n <= 64 {
            let mut buf = [0u8; 64];
            buf[..n].copy_from_slice(&a.data[o..o + n]);
            let b = self.alloc_mut(st, (dst >> 32) as u32)?;
            let p = dst as u32 as usize;
            if p + n > b.data.len() { return Err(oob(dst, n as u64)); }
            b.write_piece(p, &buf[..n], &[]);
            return Ok(());
        }
        let (d, s) = a.read_piece(o, n);
        let b = self.alloc_mut(st, (dst >> 32) as u32)?;
        let p = dst as u32 as usize;
        if p + n > b.data.len() { return Err(oob(dst, n as u64)); }
        b.write_piece(p, &d, &s);
        Ok(())
    }
    pub fn bytes(&self, st: &State, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let a = self.alloc(st, (addr >> 32) as u32)?;
        let o = addr as u32 as usize;
        if o + n > a.data.len() { return Err(oob(addr, n as u64)); }
        if a.has_sym(o, n) { Ok((0..n).map(|i| a.byte(o + i)).collect()) } else { Ok(a.data[o..o + n].iter().map(|&b| V::C(b as u128)).collect()) }
    }
    pub fn cstr(&self, st: &State, addr: u64, n: usize) -> R<String> {
        let b = self.bytes(st, addr, n)?;
        let mut v = vec![];
        for x in b { v.push(st.conc(x)? as u8); }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn malloc(&self, st: &mut State, n: usize) -> u64 {
        let a = Rc::new(Alloc::new(n));
        let i = match st.free.pop() { Some(i) => { st.heap[i as usize] = Some(a); i } None => { st.heap.push(Some(a)); st.heap.len() as u32 - 1 } };
        ((HEAP_BASE + self.base.len() as u32 + i) as u64) << 32
    }
    pub fn mfree(&self, st: &mut State, addr: u64) {
        let id = (addr >> 32) as u32;
        if id < HEAP_BASE || id >= CONST_BASE { return; }
        let i = (id - HEAP_BASE) as usize;
        if i >= self.base.len() { let k = i - self.base.len(); if st.heap[k].take().is_some() { st.free.push(k as u32); } }
    }

    // ---------- places and operands ----------
    pub fn place(&self, st: &State, p: &PlaceIR) -> R<(V, V)> {
        let fr = st.fr();
        let (mut addr, mut meta, skip) = match p.base {
            PBase::Frame(o) => (V::C((st.fbase() + o as u64) as u128), V::C(0), false),
            PBase::Reg(r) => (fr.regs[r as usize], V::C(0), false),
            PBase::Pair(r) => (fr.regs[r as usize], fr.regs[r as usize + 1], false),
        };
        let _ = skip;
        for o in p.ops.iter() {
            match o {
                POp::Off(k) => if *k != 0 { addr = bin(Op::Add, addr, V::C(*k as u128), 64); },
                POp::Deref => addr = self.loadv(st, addr, 8)?,
                POp::DerefFat => {
                    let a = st.conc(addr)? as u64;
                    addr = self.load(st, a, 8)?;
                    meta = self.load(st, a + 8, 8)?;
                }
                POp::Index(l, stride) => {
                    let i = match l { LocalRef::Reg(r) => fr.regs[*r as usize], LocalRef::Frame(o) => fr.mem.load(*o as usize, 8) };
                    addr = bin(Op::Add, addr, bin(Op::Mul, i, V::C(*stride as u128), 64), 64);
                }
                POp::IdxEnd { off, stride, len } => {
                    let n = match len { Some(n) => V::C(*n as u128), None => meta };
                    let i = bin(Op::Sub, n, V::C(*off as u128), 64);
                    addr = bin(Op::Add, addr, bin(Op::Mul, i, V::C(*stride as u128), 64), 64);
                }
                POp::Subslice { from, to, from_end, stride, len } => {
                    addr = bin(Op::Add, addr, V::C((*from * *stride) as u128), 64);
                    if len.is_none() {
                        meta = if *from_end { bin(Op::Sub, meta, V::C((*from + *to) as u128), 64) } else { V::C((*to - *from) as u128) };
                    }
                }
                POp::DynOff(k) => {
                    let vt = st.conc(meta)? as u64;
                    let al = st.conc(self.load(st, vt + 16, 8)?)? as u64;
                    addr = bin(Op::Add, addr, V::C(((*k + al - 1) / al * al) as u128), 64);
                }
            }
        }
        Ok((addr, meta))
    }
    #[inline(always)]
    pub fn is_reg(p: &PlaceIR) -> bool { p.ops.is_empty() && !matches!(p.base, PBase::Frame(_)) }

    #[inline(always)]
    pub fn sval(&self, st: &State, o: &Opnd) -> R<V> {
        match o {
            Opnd::Pl(p) => {
                if p.ops.is_empty() {
                    match p.base { PBase::Reg(r) => return Ok(st.fr().regs[r as usize]), PBase::Frame(o) => return Ok(st.fr().mem.load(o as usize, p.size as usize)), _ => {} }
                }
                let (a, _) = self.place(st, p)?;
                if p.size == 0 || p.size > 16 { return Err(Trap::Unsup(format!("scalar read of {} bytes", p.size))); }
                self.loadv(st, a, p.size as usize)
            }
            Opnd::C(v, _) => Ok(*v),
            Opnd::CM(a, n) if *n <= 16 => self.load(st, *a, *n as usize),
            Opnd::CP(a, _) => Ok(*a),
            _ => Err(Trap::Unsup("scalar operand".into())),
        }
    }
    pub fn pval(&self, st: &State, o: &Opnd) -> R<(V, V)> {
        match o {
            Opnd::Pl(p) => {
                if p.ops.is_empty() { if let PBase::Pair(r) = p.base { let f = st.fr(); return Ok((f.regs[r as usize], f.regs[r as usize + 1])); } }
                let (a, _) = self.place(st, p)?;
                let a = st.conc(a)? as u64;
                Ok((self.load(st, a, 8)?, self.load(st, a + 8, 8)?))
            }
            Opnd::CP(a, b) => Ok((*a, *b)),
            Opnd::CM(a, _) => Ok((self.load(st, *a, 8)?, self.load(st, *a + 8, 8)?)),
            _ => Err(Trap::Unsup("wide operand".into())),
        }
    }
    pub fn arg(&self, st: &State, o: &Opnd) -> R<Arg> {
        Ok(match o {
            Opnd::Z => Arg::Z,
            Opnd::C(v, _) => Arg::S(*v),
            Opnd::CP(a, b) => Arg::P(*a, *b),
            Opnd::CM(a, n) => Arg::M(*a, *n),
            Opnd::Pl(p) => match p.cls {
                Cls::Z => Arg::Z,
                Cls::S(_) => Arg::S(self.sval(st, o)?),
                Cls::P => { let (a, b) = self.pval(st, o)?; Arg::P(a, b) }
                Cls::M => { let (a, _) = self.place(st, p)?; Arg::M(st.conc(a)? as u64, p.size) }
            },
        })
    }
    pub fn rdest(&self, st: &State, p: &PlaceIR) -> R<RDest> {
        if p.cls == Cls::Z { return Ok(RDest::None); }
        if p.ops.is_empty() { match p.base { PBase::Reg(r) => return Ok(RDest::Reg(r)), PBase::Pair(r) => return Ok(RDest::Pair(r)), _ => {} } }
        let (a, _) = self.place(st, p)?;
        Ok(RDest::Mem(st.conc(a)? as u64))
    }
    /// write scalar/pair/memory to a destination in the top frame
    pub fn put_s(&self, st: &mut State, d: &RDest, v: V, n: usize) -> R<()> {
        match d { RDest::None => Ok(()), RDest::Reg(r) => { st.frm().regs[*r as usize] = v; Ok(()) } RDest::Mem(a) => self.store(st, *a, n, v), RDest::Pair(_) => Err(Trap::Unsup("scalar into pair".into())) }
    }
    pub fn put_p(&self, st: &mut State, d: &RDest, a: V, b: V) -> R<()> {
        match d {
            RDest::None => Ok(()),
            RDest::Pair(r) => { let f = st.frm(); f.regs[*r as usize] = a; f.regs[*r as usize + 1] = b; Ok(()) }
            RDest::Mem(m) => { self.store(st, *m, 8, a)?; self.store(st, *m + 8, 8, b) }
            RDest::Reg(_) => Err(Trap::Unsup("pair into scalar".into())),
        }
    }
    pub fn put_m(&self, st: &mut State, d: &RDest, src: u64, n: usize) -> R<()> {
        match d {
            RDest::None => Ok(()),
            RDest::Mem(m) => self.copy(st, src, *m, n),
            RDest::Reg(r) => { let v = self.load(st, src, n)?; st.frm().regs[*r as usize] = v; Ok(()) }
            RDest::Pair(r) => { let (a, b) = (self.load(st, src, 8)?, self.load(st, src + 8, 8)?); let f = st.frm(); f.regs[*r as usize] = a; f.regs[*r as usize + 1] = b; Ok(()) }
        }
    }
    fn put_arg(&self, st: &mut State, d: &RDest, a: &Arg, n: usize) -> R<()> {
        match a { Arg::Z => Ok(()), Arg::S(v) => self.put_s(st, d, *v, n), Arg::P(x, y) => self.put_p(st, d, *x, *y), Arg::M(s, k) => self.put_m(st, d, *s, *k as usize) }
    }

    fn arith(&self, op: BOp, a: V, b: V, w: u8, bw: u8, signed: bool) -> R<V> {
        let b2 = |x: V| -> V { // shift amounts: bring to width w, masked
            let y = if bw == w { x } else { zext(x, bw, w) };
            match y { V::C(c) if c < w as u128 => y, _ => bin(Op::And, y, V::C(w as u128 - 1), w) }
        };
        let flag = |v: V| zext(v, 1, 8);
        Ok(match op {
            BOp::Add => bin(Op::Add, a, b, w),
            BOp::Sub => bin(Op::Sub, a, b, w),
            BOp::Mul => bin(Op::Mul, a, b, w),
            BOp::Div => bin(if signed { Op::SDiv } else { Op::UDiv }, a, b, w),
            BOp::Rem => bin(if signed { Op::SRem } else { Op::URem }, a, b, w),
            BOp::Xor => bin(Op::Xor, a, b, w),
            BOp::And => bin(Op::And, a, b, w),
            BOp::Or => bin(Op::Or, a, b, w),
            BOp::Shl => bin(Op::Shl, a, b2(b), w),
            BOp::Shr => bin(if signed { Op::AShr } else { Op::LShr }, a, b2(b), w),
            BOp::Eq => flag(bin(Op::Eq, a, b, w)),
            BOp::Ne => flag(not(bin(Op::Eq, a, b, w))),
            BOp::Lt => flag(bin(if signed { Op::Slt } else { Op::Ult }, a, b, w)),
            BOp::Le => flag(bin(if signed { Op::Sle } else { Op::Ule }, a, b, w)),
            BOp::Gt => flag(bin(if signed { Op::Slt } else { Op::Ult }, b, a, w)),
            BOp::Ge => flag(bin(if signed { Op::Sle } else { Op::Ule }, b, a, w)),
            BOp::Cmp => {
                let lt = bin(if signed { Op::Slt } else { Op::Ult }, a, b, w);
                let eq = bin(Op::Eq, a, b, w);
                ite(lt, V::C(0xff), ite(eq, V::C(0), V::C(1), 8), 8)
            }
            BOp::Offset(s) => bin(Op::Add, a, bin(Op::Mul, b, V::C(s as u128), 64), 64),
        })
    }
    pub fn overflow(&self, op: BOp, a: V, b: V, w: u8, bw: u8, signed: bool) -> V {
        let r = match op {
            BOp::Add | BOp::Sub if signed => {
                let (x, y) = (sext(a, w, w + 1), sext(b, w, w + 1));
                let r = bin(if op == BOp::Add { Op::Add } else { Op::Sub }, x, y, w + 1);
                not(bin(Op::Eq, extract(r, w + 1, w, 1), extract(r, w + 1, w - 1, 1), 1))
            }
            BOp::Add => {
                let (_, ha) = range(a); let (_, hb) = range(b);
                if ha.checked_add(hb).map_or(false, |s| s <= mask(w)) { V::F } else { let s = bin(Op::Add, a, b, w); bin(Op::Ult, s, a, w) }
            }
            BOp::Sub => bin(Op::Ult, a, b, w),
            BOp::Mul if w <= 64 => {
                let (_, ha) = range(a); let (_, hb) = range(b);
                if !signed && ha.checked_mul(hb).map_or(false, |s| s <= mask(w)) { V::F }
                else if signed && ha <= mask(w) >> 1 && hb <= mask(w) >> 1 && ha.checked_mul(hb).map_or(false, |s| s <= mask(w) >> 1) { V::F }
                else {
                    let w2 = 2 * w;
                    if signed {
                        let p = bin(Op::Mul, sext(a, w, w2), sext(b, w, w2), w2);
                        let back = sext(extract(p, w2, 0, w), w, w2);
                        not(bin(Op::Eq, p, back, w2))
                    } else {
                        let p = bin(Op::Mul, zext(a, w, w2), zext(b, w, w2), w2);
                        not(bin(Op::Eq, extract(p, w2, w, w), V::C(0), w))
                    }
                }
            }
            BOp::Mul => match (a, b) { (V::C(x), V::C(y)) if !signed => V::C(x.checked_mul(y).is_none() as u128), (V::C(x), V::C(y)) => V::C((x as i128).checked_mul(y as i128).is_none() as u128), _ => V::F },
            BOp::Shl | BOp::Shr => not(bin(Op::Ult, b, V::C(w as u128), bw)),
            _ => V::F,
        };
        zext(r, 1, 8)
    }
    fn discr(&self, st: &State, p: &PlaceIR, ei: &EnumI) -> R<V> {
        match &ei.kind {
            EnumK::Single(i) => Ok(V::C(*ei.discr.get(*i).unwrap_or(&(*i as u128)))),
            EnumK::Direct { off, sz } => {
                let (a, _) = self.place(st, p)?;
                let t = self.loadv(st, bin(Op::Add, a, V::C(*off as u128), 64), *sz as usize)?;
                // the tag is the discriminant truncated to the tag width; discriminants sign-extend for signed reprs
                match t {
                    V::C(c) => {
                        for d in &ei.discr { if d & mask(sz * 8) == c { return Ok(V::C(*d)); } }
                        Ok(V::C(c))
                    }
                    _ => Ok(if ei.discr.iter().all(|d| *d <= mask(sz * 8)) { zext(t, sz * 8, ei.dw) } else { sext(t, sz * 8, ei.dw) }),
                }
            }
            EnumK::Niche { off, sz, untagged, start, end, niche_start } => {
                let (a, _) = self.place(st, p)?;
                let t = self.loadv(st, bin(Op::Add, a, V::C(*off as u128), 64), *sz as usize)?;
                let w = sz * 8;
                let rel = bin(Op::Sub, t, V::C(*niche_start & mask(w)), w);
                let isn = bin(Op::Ule, rel, V::C((*end - *start) as u128), w);
                match (isn, rel) {
                    (V::C(1), V::C(r)) => Ok(V::C(ei.discr[*start + r as usize])),
                    (V::C(0), _) => Ok(V::C(ei.discr[*untagged])),
                    _ => {
                        let mut r = V::C(ei.discr[*untagged]);
                        for v in *start..=*end {
                            if v == *untagged { continue; }
                            r = ite(bin(Op::Eq, rel, V::C((v - *start) as u128), w), V::C(ei.discr[v]), r, ei.dw);
                        }
                        Ok(r)
                    }
                }
            }
        }
    }

    fn put_op(&self, st: &mut State, dp: &PlaceIR, o: &Opnd) -> R<()> {
        // fast path: register to register
        if dp.ops.is_empty() {
            if let PBase::Reg(r) = dp.base {
                let v = self.sval(st, o)?;
                st.frm().regs[r as usize] = v;
                return Ok(());
            }
        }
        let a = self.arg(st, o)?;
        let d = self.rdest(st, dp)?;
        self.put_arg(st, &d, &a, dp.size as usize)
    }

    fn assign(&self, st: &mut State, dp: &PlaceIR, rv: &Rv) -> R<()> {
        macro_rules! outs { ($v:expr) => {{ let v = $v; if dp.ops.is_empty() { if let PBase::Reg(r) = dp.base { st.frm().regs[r as usize] = v; return Ok(()); } } let d = self.rdest(st, dp)?; self.put_s(st, &d, v, dp.size as usize) }} }
        match rv {
            Rv::Use(o) => self.put_op(st, dp, o),
            Rv::Bin { op, w, signed, a, b, bw, fat } => {
                if *fat {
                    if let BOp::Offset(_) = op { return Err(Trap::Unsup("offset of wide pointer".into())); }
                    let (a0, a1) = self.pval(st, a)?;
                    let (b0, b1) = self.pval(st, b)?;
                    let eq = and(bin(Op::Eq, a0, b0, 64), bin(Op::Eq, a1, b1, 64));
                    let v = match op { BOp::Eq => eq, BOp::Ne => not(eq), _ => return Err(Trap::Unsup("ordering of wide pointers".into())) };
                    return outs!(zext(v, 1, 8));
                }
                let x = self.sval(st, a)?;
                let y = self.sval(st, b)?;
                outs!(self.arith(*op, x, y, *w, *bw, *signed)?)
            }
            Rv::Chk { op, w, signed, a, b, bw, off1 } => {
                let x = self.sval(st, a)?;
                let y = self.sval(st, b)?;
                let r = self.arith(*op, x, y, *w, *bw, *signed)?;
                let o = self.overflow(*op, x, y, *w, *bw, *signed);
                let RDest::Mem(m) = self.rdest(st, dp)? else { return Err(Trap::Unsup("checked op dest".into())) };
                self.store(st, m, (*w / 8) as usize, r)?;
                self.store(st, m + off1, 1, o)
            }
            Rv::Not(a, w, b) => { let x = self.sval(st, a)?; outs!(if *b { bin(Op::Xor, x, V::C(1), 8) } else { un_not(x, *w) }) }
            Rv::Neg(a, w) => { let x = self.sval(st, a)?; outs!(neg(x, *w)) }
            Rv::PtrMeta(a) => {
                let m = match a { Opnd::Pl(p) if p.cls != Cls::P => { V::C(0).max_meta(self.place(st, p)?.1) } _ => self.pval(st, a)?.1 };
                outs!(m)
            }
            Rv::CastInt { a, from, signed, to } => {
                let x = self.sval(st, a)?;
                let r = if to <= from { extract(x, *from, 0, *to) } else if *signed { sext(x, *from, *to) } else { zext(x, *from, *to) };
                outs!(r)
            }
            Rv::Thin(a) => { let (x, _) = self.pval(st, a)?; outs!(x) }
            Rv::Transmute(o) => {
                let a = self.arg(st, o)?;
                let d = self.rdest(st, dp)?;
                let n = dp.size as usize;
                match (&a, &d) {
                    (Arg::S(v), RDest::Pair(r)) => { let (v, r) = (*v, *r as usize); let f = st.frm(); f.regs[r] = extract(v, 128, 0, 64); f.regs[r + 1] = extract(v, 128, 64, 64); Ok(()) }
                    (Arg::P(x, y), RDest::Reg(r)) => { let v = concat(*y, 64, *x, 64); st.frm().regs[*r as usize] = v; Ok(()) }
                    _ => self.put_arg(st, &d, &a, n),
                }
            }
            Rv::UnsizeConst(o, m) => {
                let x = self.sval(st, o)?;
                let d = self.rdest(st, dp)?;
                self.put_p(st, &d, x, *m)
            }
            Rv::UnsizeStruct(o, off, m, dst) => {
                let a = self.arg(st, o)?;
                let d = self.rdest(st, dp)?;
                let x = match a { Arg::S(v) => v, Arg::M(s, n) => { if n != 8 || *off != 0 || *dst != 16 { return Err(Trap::Unsup("unsize of composite smart pointer".into())); } self.load(st, s, 8)? } _ => return Err(Trap::Unsup("unsize struct".into())) };
                self.put_p(st, &d, x, *m)
            }
            Rv::Ref(p) => {
                let (a, m) = self.place(st, p)?;
                if dp.cls == Cls::P {
                    let d = self.rdest(st, dp)?;
                    self.put_p(st, &d, a, m)
                } else { outs!(a) }
            }
            Rv::Discr(p, ei) => {
                let v = self.discr(st, p, ei)?;
                outs!(v)
            }
            Rv::Agg(parts, tag) => {
                if Self::is_reg(dp) {
                    // single-field wrapper kept in a register
                    return match parts.len() { 1 => self.put_op(st, dp, &parts[0].1), 0 => match tag { Some((_, _, v)) => outs!(V::C(*v)), None => Ok(()) }, _ => Err(Trap::Unsup("aggregate into register".into())) };
                }
                let RDest::Mem(m) = self.rdest(st, dp)? else { return Err(Trap::Unsup("aggregate dest".into())) };
                let mut vals: Vec<(u64, Arg, usize)> = Vec::with_capacity(parts.len());
                for (o, op) in parts {
                    let a = self.arg(st, op)?;
                    let n = match op { Opnd::Pl(p) => p.size as usize, Opnd::C(_, n) => *n as usize, _ => 16 };
                    vals.push((*o, a, n));
                }
                for (o, a, n) in &vals { self.put_arg(st, &RDest::Mem(m + o), a, *n)?; }
                if let Some((o, n, v)) = tag { self.store(st, m + o, *n as usize, V::C(*v))?; }
                Ok(())
            }
            Rv::RawPtr(a, b) => {
                let x = match a { Opnd::Pl(p) if p.cls == Cls::P => self.pval(st, a)?.0, _ => self.sval(st, a)? };
                let y = self.sval(st, b)?;
                let d = self.rdest(st, dp)?;
                self.put_p(st, &d, x, y)
            }
            Rv::Repeat(o, n, s) => {
                let a = self.arg(st, o)?;
                let RDest::Mem(m) = self.rdest(st, dp)? else { return Err(Trap::Unsup("repeat dest".into())) };
                if let Arg::S(V::C(0)) = a {
                    let z = vec![0u8; (*n * *s) as usize];
                    let al = self.alloc_mut(st, (m >> 32) as u32)?;
                    al.write_piece(m as u32 as usize, &z, &[]);
                    return Ok(());
                }
                for i in 0..*n { self.put_arg(st, &RDest::Mem(m + i * s), &a, *s as usize)?; }
                Ok(())
            }
            Rv::Bad(m) => Err(Trap::Unsup(m.clone())),
        }
    }

    // ---------- calls ----------
    pub fn push_frame(&self, st: &mut State, id: u32, args: &[Arg], ret: RDest, ret_bb: Option<u32>) -> R<()> {
        let code = code(id).map_err(Trap::Unsup)?;
        let code: &'static Code = unsafe { &*Rc::as_ptr(&code) };
        if st.frames.len() >= MAX_FRAMES { return Err(Trap::Unsup("stack too deep".into())); }
        let mut fr = Frame { code, bb: 0, ip: 0, regs: vec![V::C(0); code.nregs], mem: Alloc::new(code.frame), ret, ret_bb, loops: vec![] };
        let put = |fr: &mut Frame, slot: Store, off: u64, size: usize, a: &Arg| -> R<()> {
            match (slot, a) {
                (_, Arg::Z) | (Store::Z, _) => {}
                (Store::Reg(r), Arg::S(v)) => fr.regs[r as usize] = *v,
                (Store::Pair(r), Arg::P(x, y)) => { fr.regs[r as usize] = *x; fr.regs[r as usize + 1] = *y; }
                (Store::Mem(o, _), Arg::S(v)) => fr.mem.store(o as usize + off as usize, size, *v),
                (Store::Mem(o, _), Arg::P(x, y)) => { let p = o as usize + off as usize; fr.mem.store(p, 8, *x); fr.mem.store(p + 8, 8, *y); }
                (Store::Mem(o, _), Arg::M(s, n)) => {
                    let al = self.alloc(st, (*s >> 32) as u32)?;
                    let so = *s as u32 as usize;
                    if so + *n as usize > al.data.len() { return Err(oob(*s, *n)); }
                    if al.sym.is_empty() { let p = o as usize + off as usize; fr.mem.data[p..p + *n as usize].copy_from_slice(&al.data[so..so + *n as usize]); }
                    else { let (d, y) = al.read_piece(so, *n as usize); fr.mem.write_piece(o as usize + off as usize, &d, &y); }
                }
                (Store::Reg(r), Arg::M(s, n)) => fr.regs[r as usize] = self.load(st, *s, *n as usize)?,
                (Store::Pair(r), Arg::M(s, _)) => { fr.regs[r as usize] = self.load(st, *s, 8)?; fr.regs[r as usize + 1] = self.load(st, *s + 8, 8)?; }
                (s, _) => return Err(Trap::Unsup(format!("argument mismatch {s:?} in {}", code.name))),
            }
            Ok(())
        };
        match &code.spread {
            None => {
                if args.len() != code.nargs { return Err(Trap::Unsup(format!("arity {} != {} in {}", args.len(), code.nargs, code.name))); }
                for (i, a) in args.iter().enumerate() {
                    let (c, n) = code.cls[i + 1];
                    let _ = c;
                    put(&mut fr, code.locals[i + 1], 0, n as usize, a)?;
                }
            }
            Some((l, offs)) => {
                let fixed = code.nargs - 1;
                for (i, a) in args.iter().enumerate().take(fixed) { put(&mut fr, code.locals[i + 1], 0, code.cls[i + 1].1 as usize, a)?; }
                for (k, a) in args.iter().skip(fixed).enumerate() {
                    // scalar sizes inside the tuple follow from the next offset; use the widest that fits the value
                    let n = match a { Arg::S(_) => spread_size(code, *l, k), _ => 16 };
                    put(&mut fr, code.locals[*l], offs[k], n, a)?;
                }
            }
        }
        *cp_calls(id) += 1;
        st.frames.push(fr);
        Ok(())
    }
    pub fn call_addr(&self, st: &State, v: V) -> R<u32> {
        let a = st.conc(v)? as u64;
        let id = (a >> 32) as u32;
        if id < FN_BASE { return Err(Trap::Unsup(format!("call of non-function address {a:#x}"))); }
        Ok(((a - ((FN_BASE as u64) << 32)) / 16) as u32)
    }
    fn do_call(&mut self, st: &mut State, c: &'static CallIR) -> R<()> {
        let mut args: Vec<Arg> = Vec::with_capacity(c.args.len());
        for a in &c.args { args.push(self.arg(st, a)?); }
        let id = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Ptr(o) => { let v = self.sval(st, o)?; self.call_addr(st, v)? }
            Callee::Virt(slot) => {
                let (data, vt) = match &args[0] { Arg::P(a, b) => (*a, *b), Arg::M(s, 16) => (self.load(st, *s, 8)?, self.load(st, *s + 8, 8)?), _ => return Err(Trap::Unsup("virtual receiver".into())) };
                let vt = st.conc(vt)? as u64;
                let f = self.load(st, vt + slot * 8, 8)?;
                args[0] = Arg::S(data);
                self.call_addr(st, f)?
            }
        };
        let dest = self.rdest(st, &c.dest)?;
        self.invoke(st, id, args, dest, c.target, c.dest.size as usize)
    }
    pub fn invoke(&mut self, st: &mut State, id: u32, args: Vec<Arg>, dest: RDest, target: Option<u32>, dsize: usize) -> R<()> {
        if let Some(h) = cp().fns[id as usize].hook {
            let cx = crate::hooks::Hx { f: id, args: &args, dest, target, dsize };
            let r = h(self, st, &cx)?;
            // a choice belongs to the call it was made for, even if the call no longer asks for it
            st.choice = None;
            match r {
                Flow::Ret => { match target { Some(t) => { let f = st.frm(); f.bb = t; f.ip = 0; Ok(()) } None => Err(Trap::Unsup(format!("return from diverging {}", cp().fns[id as usize].name))) } }
                Flow::Pushed => Ok(()),
                Flow::Body => self.push_frame(st, id, &args, dest, target),
            }
        } else {
            self.push_frame(st, id, &args, dest, target)
        }
    }
    fn do_return(&mut self, st: &mut State) -> R<()> {
        let n = st.frames.len();
        if n == 1 { return Err(Trap::Done); }
        let fr = st.frames.pop().unwrap();
        let (cls, size) = fr.code.cls[0];
        let r: R<()> = match (fr.code.locals[0], &fr.ret) {
            (_, RDest::None) | (Store::Z, _) => Ok(()),
            (Store::Reg(r), d) => self.put_s(st, d, fr.regs[r as usize], size as usize),
            (Store::Pair(r), d) => self.put_p(st, d, fr.regs[r as usize], fr.regs[r as usize + 1]),
            (Store::Mem(o, _), d) => match d {
                RDest::Reg(q) => { st.frm().regs[*q as usize] = fr.mem.load(o as usize, size as usize); Ok(()) }
                RDest::Pair(q) => { let f = st.frm(); f.regs[*q as usize] = fr.mem.load(o as usize, 8); f.regs[*q as usize + 1] = fr.mem.load(o as usize + 8, 8); Ok(()) }
                RDest::Mem(m) => {
                    let (d, s) = fr.mem.read_piece(o as usize, size as usize);
                    let a = self.alloc_mut(st, (*m >> 32) as u32)?;
                    let p = *m as u32 as usize;
                    if p + d.len() > a.data.len() { return Err(oob(*m, size)); }
                    a.write_piece(p, &d, &s);
                    Ok(())
                }
                RDest::None => Ok(()),
            },
        };
        let _ = cls;
        r?;
        match fr.ret_bb { Some(b) => { let f = st.frm(); f.bb = b; f.ip = 0; Ok(()) } None => Err(Trap::Unsup("return to nowhere".into())) }
    }

    // ---------- path condition ----------
    /// narrow the state by a boolean (width 1); false if it became infeasible without the solver
    pub fn assume(&mut self, st: &mut State, c: V) -> bool {
        if let V::S(e) = c {
            st.log.push((e, st.mdd));
            match crate::mdd::md().of(e).and_then(|m| crate::mdd::md().apply(0, st.mdd, m)) {
                Some(crate::mdd::F) => return false,
                Some(m) => { if m == st.mdd && st.exact { st.log.pop(); return true; } st.mdd = m; }
                None => { if self.verbose && st.exact { eprintln!("inexact: {}", show(e, 12)); } st.exact = false }
            }
        }
        self.assume1(st, c)
    }
    fn assume1(&mut self, st: &mut State, c: V) -> bool {
        match c {
            V::C(x) => x != 0,
            V::S(e) => {
                match st.range(e) { (1, 1) => return true, (0, 0) => return false, _ => {} }
                match info(e).node.clone() {
                    Node::Tab(v, t) => {
                        let p = st.vpos[&v];
                        let mut d = st.doms[p].1;
                        for i in 0..t.len() { if t[i] == 0 { d[i >> 6] &= !(1 << (i & 63)); } }
                        st.doms[p].1 = d;
                        d != [0; 4]
                    }
                    Node::Bin(Op::And, a, b) => self.assume1(st, val_of(a)) && self.assume1(st, val_of(b)),
                    Node::Bin(Op::Xor, a, b) if matches!(info(b).node, Node::Const(1)) => {
                        if let Node::Bin(Op::Or, x, y) = info(a).node { return self.assume1(st, not(val_of(x))) && self.assume1(st, not(val_of(y))); }
                        st.cons.push(e);
                        st.fixed.insert(a, 0);
                        st.fixed.insert(e, 1);
                        true
                    }
                    Node::Bin(Op::Eq, a, b) => {
                        st.cons.push(e);
                        st.fixed.insert(e, 1);
                        if let Node::Const(k) = info(b).node { st.fixed.insert(a, k); }
                        if let Node::Const(k) = info(a).node { st.fixed.insert(b, k); }
                        true
                    }
                    _ => { st.cons.push(e); st.fixed.insert(e, 1); true }
                }
            }
        }
    }
    /// constraints that involve multi-variable terms, restricted to those connected to `seed`
    fn solve_raw(&mut self, st: &State, extra: &[E], timeout: u32) -> Ans {
        let mut cs: Vec<E> = extra.to_vec();
        let mut live: Vec<(E, (u128, u128))> = vec![];
        for &c in &st.cons { live.push((c, (0, 0))); }
        let mut vars: Vec<u32> = vec![];
        for &e in extra { vars.extend(info(e).vars.iter()); }
        if extra.is_empty() { for (c, _) in &live { cs.push(*c); vars.extend(info(*c).vars.iter()); } }
        else {
            let mut used = vec![false; live.len()];
            loop {
                let mut ch = false;
                for (i, (c, _)) in live.iter().enumerate() {
                    if !used[i] && info(*c).vars.iter().any(|v| vars.contains(v)) {
                        used[i] = true; ch = true;
                        cs.push(*c);
                        for v in info(*c).vars.iter() { if !vars.contains(v) { vars.push(*v); } }
                    }
                }
                if !ch { break; }
            }
        }
        vars.sort(); vars.dedup();
        let doms: Vec<(u32, Dom)> = vars.iter().map(|&v| (v, st.dom(v))).collect();
        self.solver.check(&cs, crate::mdd::T, &doms, timeout)
    }
    /// z3's verdict on the path condition and `extra`; a path condition that is an exact diagram is
    /// handed over in that reduced form
    pub fn decide(&mut self, st: &State, extra: &[E]) -> Ans {
        if !st.exact { return self.solve_raw(st, extra, 60_000); }
        let md = crate::mdd::md();
        let mut vars = vec![];
        md.vars(st.mdd, &mut vars);
        for e in extra { vars.extend(info(*e).vars.iter()); }
        vars.sort(); vars.dedup();
        let doms: Vec<(u32, Dom)> = vars.iter().map(|&v| (v, st.dom(v))).collect();
        match self.solver.check(extra, st.mdd, &doms, 10_000) {
            Ans::Unknown => {
                let mut m = st.mdd;
                for e in extra { match md.of(*e).and_then(|x| md.apply(0, m, x)) { Some(x) => m = x, None => return Ans::Unknown } }
                // the conjunction in reduced form
                self.reduced += 1;
                self.solver.check(&[], m, &doms, 60_000)
            }
            a => a,
        }
    }
    pub fn solve(&mut self, st: &State, extra: &[E]) -> Option<Vec<(u32, usize)>> {
        match self.decide(st, extra) { Ans::Sat(m) => Some(m), Ans::Unsat => None, Ans::Unknown => { self.undecided += 1; None } }
    }
    pub fn feasible(&mut self, st: &State, c: V) -> bool {
        match c {
            V::C(x) => x != 0,
            V::S(e) => {
                match st.range(e) { (1, 1) => return true, (0, 0) => return false, _ => {} }
                if let Some(m) = crate::mdd::md().of(e).and_then(|m| crate::mdd::md().apply(0, st.mdd, m)) {
                    let r = m != crate::mdd::F;
                    if !r || st.exact {
                        self.diagram += 1;
                        // a sample of the diagram verdicts is re-decided by the solver
                        if self.crosscheck > 0 && self.diagram % self.crosscheck == 0 {
                            self.crosschecked += 1;
                            match self.solve_raw(st, &[e], 1000) {
                                Ans::Unknown => { self.solver.unknown -= 1; self.crosschecked -= 1; }
                                a => if (a != Ans::Unsat) != r { self.crossfail += 1; eprintln!("diagram and solver disagree: diagram {r}, exact {}, {} at {:?}", st.exact, show(e, 6), st.stack().iter().take(4).collect::<Vec<_>>()); }
                            }
                        }
                        return r;
                    }
                }
                // a table that is satisfiable inside the domain of a variable no other constraint mentions
                if let Node::Tab(v, _) = &info(e).node {
                    if !st.cons.iter().any(|&c| info(c).vars.contains(v)) { return true; }
                }
                if self.verbose { eprintln!("z3 for exact={} {:?}: {}", st.exact, crate::mdd::md().of(e), show(e, 7)); }
                self.solve(st, &[e]).is_some()
            }
        }
    }
    pub fn fork_on(&mut self, st: &State, conds: &[V]) -> Vec<(usize, State)> {
        let mut out = vec![];
        for (i, &c) in conds.iter().enumerate() {
            if self.late() { self.dropped = true; break; }
            if !self.feasible(st, c) { continue; }
            let mut s = st.clone();
            if self.assume(&mut s, c) { out.push((i, s)); }
        }
        if self.prof && out.len() > 1 { *self.forkprof.entry(format!("{}", st.stack().iter().filter(|x| !x.starts_with("std::") && !x.starts_with("core::")).take(2).cloned().collect::<Vec<_>>().join(" < "))).or_insert(0) += 1; }
        if out.len() > 1 { self.forks += out.len() as u64 - 1; for (_, s) in out.iter_mut() { s.forks += 1; } }
        out
    }
    /// out of time, or some worker found a violation a while ago
    pub fn late(&self) -> bool {
        let stop = FOUND.load(std::sync::atomic::Ordering::Relaxed);
        self.deadline.is_some_and(|d| std::time::Instant::now() > d) || !stop.is_null() && { let t = unsafe { (*stop).load(std::sync::atomic::Ordering::Relaxed) }; t != 0 && millis() > t + GRACE }
    }
    pub fn found(&mut self, v: Violation) {
        let stop = FOUND.load(std::sync::atomic::Ordering::Relaxed);
        if !stop.is_null() { let _ = unsafe { (*stop).compare_exchange(0, millis(), std::sync::atomic::Ordering::Relaxed, std::sync::atomic::Ordering::Relaxed) }; }
        self.violations.push(v);
    }
    /// between jobs: drop terms and diagrams when there are many
    pub fn fresh(&mut self) {
        self.peak = self.peak.max(crate::mdd::md().size());
        if crate::mdd::md().size() < 200_000 && ar().nodes.len() < 200_000 { return; }
        crate::mdd::reset();
        crate::expr::reset();
        self.solver.reset();
        self.res.cache.clear();
    }
    /// all feasible values of e on this path
    pub fn values(&mut self, st: &State, e: E) -> R<Vec<u128>> {
        let w = width(e);
        if let Some((v, t)) = as_tab(e) {
            let d = st.dom(v);
            let mut vals: Vec<u128> = dom_iter(&d).filter(|&i| i < t.len()).map(|i| t[i] as u128).collect();
            vals.sort(); vals.dedup();
            return Ok(vals);
        }
        if let Some(cs) = crate::mdd::md().cases(e) {
            let mut vals = vec![];
            let mut ok = true;
            for (x, m) in cs.iter() {
                if self.late() { return Err(Trap::Unsup("time budget".into())); }
                match crate::mdd::md().apply(0, st.mdd, *m) { Some(crate::mdd::F) => self.diagram += 1, Some(_) if st.exact => vals.push(*x), _ => if self.feasible(st, bin(Op::Eq, V::S(e), V::C(*x), w)) { vals.push(*x); } }
                if vals.len() > 2000 { ok = false; }
            }
            if ok { return Ok(vals); }
        }
        if let Some(vs) = value_set(e, &mut HashMap::default()) {
            let mut vals = vec![];
            for x in vs.iter() { if self.late() { return Err(Trap::Unsup("time budget".into())); } if self.feasible(st, bin(Op::Eq, V::S(e), V::C(*x), w)) { vals.push(*x); } }
            return Ok(vals);
        }
        let mut vals = vec![];
        let mut s = st.clone();
        if self.verbose { eprintln!("ENUM {} {:?}", show(e, 9), st.stack()); }
        loop {
            if self.late() { return Err(Trap::Unsup("time budget".into())); }
            // make sure every variable of e is part of the query
            let tru = bin(Op::Ule, V::S(e), V::C(mask(w)), w);
            let _ = tru;
            let vars = info(e).vars.clone();
            let mut extra: Vec<E> = vec![];
            for &x in &vals { let V::S(n) = not(bin(Op::Eq, V::S(e), V::C(x), w)) else { return Ok(vals) }; extra.push(n); }
            let m = if extra.is_empty() {
                let n = ar().vars[vars[0] as usize].dom.len();
                let _ = n;
                self.solve_with_vars(&s, &vars)
            } else { self.solve(&s, &extra) };
            let Some(m) = m else { break };
            let asg: HashMap<u32, usize> = m.into_iter().collect();
            let x = eval(e, &|v| asg.get(&v).copied().unwrap_or_else(|| dom_first(&st.dom(v)).unwrap()), &mut HashMap::default());
            vals.push(x);
            if vals.len() > 1200 { return Err(Trap::Unsup("too many values to concretise".into())); }
        }
        s.cons.clear();
        Ok(vals)
    }
    /// any model that assigns the given variables
    fn solve_with_vars(&mut self, st: &State, vs: &[u32]) -> Option<Vec<(u32, usize)>> {
        let mut m = self.solve(st, &[])?;
        for &v in vs { if !m.iter().any(|x| x.0 == v) { m.push((v, dom_first(&st.dom(v)).unwrap())); } }
        Some(m)
    }
    /// concrete harness inputs for the path (a solver model)
    pub fn inputs(&mut self, st: &State, extra: &[E]) -> Option<Vec<u32>> {
        let m = self.solve(st, extra)?;
        Some(self.assemble(st, m))
    }
    pub fn assemble(&self, st: &State, m: Vec<(u32, usize)>) -> Vec<u32> {
        let asg: HashMap<u32, usize> = m.into_iter().collect();
        st.picks.iter().map(|p| match p {
            Pick::Choice(c) => *c,
            Pick::Var(v) => { let i = asg.get(v).copied().unwrap_or_else(|| dom_first(&st.dom(*v)).unwrap()); ar().vars[*v as usize].dom[i] as u32 }
        }).collect()
    }
    /// a pseudo-random witness of the path
    pub fn witness(&mut self, st: &State) -> Option<Vec<u32>> {
        if !st.exact { return self.inputs(st, &[]); }
        if st.mdd == crate::mdd::F { return None; }
        let mut m = crate::mdd::md().pick_random(st.mdd, &mut self.rng);
        for p in &st.picks { if let Pick::Var(v) = p { if !m.iter().any(|x| x.0 == *v) {
            let d: Vec<usize> = dom_iter(&st.dom(*v)).collect();
            self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
            m.push((*v, d[(self.rng % d.len() as u64) as usize]));
        } } }
        Some(self.assemble(st, m))
    }

    // ---------- main loop ----------
    /// queue a state, in running order (the next one to run is last)
    pub fn push(&mut self, st: State) {
        let i = self.work.partition_point(|x| cmp(x, &st) == std::cmp::Ordering::Greater);
        self.work.insert(i, st);
    }
    /// run the queued states until one of them ends
    pub fn next(&mut self) -> Option<(State, Trap)> {
        let mut cur = self.work.pop()?;
        let mut fresh = true;
        let mut start = cur.steps;
        let mut ticks = 0u32;
        // frames up to here are those in which the running and the next state differ
        let mut p = self.work.last().map_or(0, |n| split_at(&cur, n));
        loop {
            ticks += 1;
            if !self.work.is_empty() && !fresh && cur.frames.len() <= p + 1 && { let f = cur.fr(); f.ip == 0 && wto(f.code).join[f.bb as usize] } {
                use std::cmp::Ordering::*;
                match cmp(&cur, self.work.last().unwrap()) {
                    Less => {}
                    Equal => {
                        let mut g = vec![cur];
                        while self.work.last().is_some_and(|n| cmp(&g[0], n) == Equal) { g.push(self.work.pop().unwrap()); }
                        self.total_steps += g[0].steps - start;
                        let mut g = if self.no_merge { g } else { self.merge(g) };
                        cur = match g.pop() { Some(s) => s, None => return Some((State::new(), Trap::Infeasible)) };
                        start = cur.steps;
                        g.reverse();
                        self.work.append(&mut g);
                    }
                    Greater => {
                        self.total_steps += cur.steps - start;
                        let n = self.work.pop().unwrap();
                        self.push(std::mem::replace(&mut cur, n));
                        start = cur.steps;
                    }
                }
                p = self.work.last().map_or(0, |n| split_at(&cur, n));
            }
            fresh = false;
            let nw = self.work.len();
            let r = self.step_block(&mut cur);
            let r = match r {
                Err(Trap::Conc(e)) => { let e = stem(e); match self.values(&cur, e) {
                    Err(t) => Err(t),
                    Ok(vals) => {
                        let w = width(e);
                        let conds: Vec<V> = vals.iter().map(|&x| bin(Op::Eq, V::S(e), V::C(x), w)).collect();
                        let mut succ = self.fork_on(&cur, &conds);
                        for (i, s) in succ.iter_mut() { s.fixed.insert(e, vals[*i]); s.settle(e); }
                        self.resume(&mut cur, succ.into_iter().map(|x| x.1).collect())
                    }
                } },
                Err(Trap::Split(conds)) => {
                    let mut succ = self.fork_on(&cur, &conds);
                    for (i, s) in succ.iter_mut() { s.choice = Some(*i); }
                    self.resume(&mut cur, succ.into_iter().map(|x| x.1).collect())
                }
                r => r,
            };
            if self.work.len() != nw { fresh = true; self.total_steps += cur.steps - start; start = cur.steps; p = split_at(&cur, self.work.last().unwrap()); }
            if self.dropped { self.dropped = false; self.total_steps += cur.steps - start; return Some((cur, Trap::Unsup("time budget".into()))); }
            if let Err(t) = r { self.total_steps += cur.steps - start; return Some((cur, t)); }
            if self.verbose && self.tick.elapsed().as_millis() > 500 { self.tick = std::time::Instant::now(); eprintln!("  steps {} forks {} work {} queries {} solver {:.1}s cons {} {:?}", cur.steps, cur.forks, self.work.len(), self.solver.queries, self.solver.time.as_secs_f64(), cur.cons.len(), &cur.stack()[..cur.frames.len().min(4)]); }
            if fresh || ticks & 127 == 0 { if self.late() { { self.total_steps += cur.steps - start; return Some((cur, Trap::Unsup("time budget".into()))); } } }
            if cur.steps > self.max_steps { self.total_steps += cur.steps - start; return Some((cur, Trap::Unsup("step limit reached (possible non-termination)".into()))); }
        }
    }
    /// continue with one of the successors of a fork and queue the others
    fn resume(&mut self, st: &mut State, mut succ: Vec<State>) -> R<()> {
        let Some(s) = succ.pop() else { return Err(Trap::Infeasible) };
        *st = s;
        for x in succ { self.push(x); }
        Ok(())
    }
    /// Join states that are at the same place and differ in a few scalars only.
    fn merge(&mut self, mut v: Vec<State>) -> Vec<State> {
        let n0 = v.len();
        let depth = v[0].frames.len();
        let code = v[0].fr().code;
        let bb = v[0].fr().bb;
        if cp().fns[code.id as usize].inst.body().is_some() {
            let (dead, named) = crate::join::info_of(code).dead(code, bb);
            for s in v.iter_mut() { zero(s.frm(), dead); }
            let named: Vec<(usize, usize)> = named.iter().filter_map(|d| if let Store::Mem(o, n) = d { Some((*o as usize, *n as usize)) } else { None }).filter(|x| x.1 > 0).collect();
            if !named.is_empty() && v.iter().skip(1).any(|s| !same_alloc(&s.fr().mem, &v[0].fr().mem)) {
                for s in v.iter_mut() {
                    let f = s.fr();
                    let c: Vec<_> = named.iter().copied().filter(|&(o, n)| f.mem.data[o..o + n].iter().any(|&x| x != 0) || f.mem.has_sym(o, n)).collect();
                    if !c.is_empty() { for (o, n) in unreferenced(s, depth, c) { s.frm().mem.zero(o, n); } }
                }
            }
        }
        let mut groups: Vec<(Vec<State>, Vec<Loc>)> = vec![];
        for s in v {
            let mut hit = None;
            for (gi, g) in groups.iter().enumerate() {
                if let Some(ls) = diff(&g.0[0], &s).filter(|ls| ls.iter().all(|l| l.width() < 64 || mixable(l.get(&g.0[0]), l.get(&s), 64, &|i, e| (if i == 0 { &g.0[0] } else { &s }).known(val_of(e)) == Some(0)))) {
                    let mut all = g.1.clone();
                    for l in ls { if !all.contains(&l) { all.push(l); } }
                    if all.len() <= 16 { hit = Some((gi, all)); break; }
                }
            }
            match hit { Some((gi, all)) => { groups[gi].0.push(s); groups[gi].1 = all; self.merges += 1; } None => groups.push((vec![s], vec![])) }
        }
        if self.verbose && groups.len() > 1 && groups.len() == n0 { eprintln!("NOJOIN {} states {}:{}", n0, code.name.chars().take(60).collect::<String>(), bb); why(&groups[0].0[0], &groups[1].0[0]); }
        let mut out = vec![];
        for (members, locs) in groups {
            if members.len() == 1 { out.extend(members); continue; }
            let m0 = &members[0];
            let common = |f: &dyn Fn(&State) -> usize, eq: &dyn Fn(&State, usize) -> bool| {
                let mut n = f(m0);
                for s in &members[1..] { n = n.min(f(s)); let mut k = 0; while k < n && eq(s, k) { k += 1; } n = k; }
                n
            };
            let np = common(&|s| s.log.len(), &|s, k| s.log[k] == m0.log[k]);
            let nc = common(&|s| s.cons.len(), &|s, k| s.cons[k] == m0.cons[k]);
            let tails: Vec<&[(E, crate::mdd::M)]> = members.iter().map(|s| &s.log[np..]).collect();
            let mut vals: Vec<(Loc, V)> = vec![];
            for l in locs {
                let mut alts: Vec<(Vec<&[(E, crate::mdd::M)]>, V)> = vec![];
                for (c, s) in tails.iter().zip(&members) {
                    let v = l.get(s);
                    match alts.iter_mut().find(|a| a.1 == v) { Some(a) => a.0.push(c), None => alts.push((vec![c], v)) }
                }
                let alts: Vec<(V, V)> = alts.into_iter().map(|(c, v)| (disj(c), v)).collect();
                vals.push((l, join(&alts, l.width())));
            }
            let exact = members.iter().all(|s| s.exact);
            let mut mdd = Some(crate::mdd::F);
            for s in &members { mdd = mdd.and_then(|m| crate::mdd::md().apply(1, m, s.mdd)); }
            let exact = exact && mdd.is_some();
            let base = members.iter().find_map(|s| s.log.get(np).map(|x| x.1));
            let all = match (mdd, base) { (Some(m), Some(b)) if exact && m == b => V::T, (_, None) => V::T, _ => disj(tails) };
            let mdd = mdd.unwrap_or(base.unwrap_or(crate::mdd::T));
            let steps = members.iter().map(|m| m.steps).max().unwrap();
            let mut fixed = members[0].fixed.clone();
            fixed.retain(|k, v| members[1..].iter().all(|s| s.fixed.get(k) == Some(v)));
            let mut doms = members[0].doms.clone();
            for s in &members[1..] { for (d, e) in doms.iter_mut().zip(&s.doms) { for i in 0..4 { d.1[i] |= e.1[i]; } } }
            let mut s = members.into_iter().next().unwrap();
            s.steps = steps;
            s.cons.truncate(nc);
            s.log.truncate(np);
            s.doms = doms;
            // (a fact that every member knows may be what `all` says, and is no reason to leave it out)
            s.fixed = Default::default();
            for k in 0..s.heap.len() { if s.heap[k].is_none() && !s.free.contains(&(k as u32)) { s.free.push(k as u32); } }
            if let V::S(e) = all { s.log.push((e, base.unwrap())); }
            if all == V::F || !self.assume1(&mut s, all) { continue; }
            for (k, v) in fixed { s.fixed.insert(k, v); }
            s.mdd = mdd;
            s.exact = exact;
            for (l, v) in vals { l.set(&mut s, v); }
            out.push(s);
        }
        out
    }
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let (code, bbi, ip) = { let f = st.fr(); (f.code, f.bb, f.ip) };
        let bb = &code.bbs[bbi as usize];
        let mut i = ip as usize;
        let lp = if ip == 0 && !st.doms.is_empty() { wto(code).head[bbi as usize] } else { 0 };
        if lp != 0 {
            let w = wto(code);
            let f = st.frm();
            if f.loops.is_empty() { f.loops = vec![0; w.last.len()]; }
            f.loops[lp as usize - 1] += 1;
            for l in lp..w.last[lp as usize - 1] { f.loops[l as usize] = 0; }
        }
        while i < bb.st.len() {
            let r = match &bb.st[i] {
                St::Assign(d, rv) => self.assign(st, d, rv),
                St::SetDiscr(d, t) => (|| { if let Some((o, n, v)) = t { let (a, _) = self.place(st, d)?; let a = st.conc(a)? as u64; self.store(st, a + o, *n as usize, V::C(*v)) } else { Ok(()) } })(),
                St::Assume(_) => Ok(()),
                St::Copy(s, d, n, sz) => (|| {
                    let s = self.sval(st, s)?; let d = self.sval(st, d)?; let n = self.sval(st, n)?;
                    let (s, d, n) = (st.conc(s)? as u64, st.conc(d)? as u64, st.conc(n)? as u64);
                    self.copy(st, s, d, (n * sz) as usize)
                })(),
            };
            if let Err(t) = r { let f = st.frm(); f.ip = i as u32; if i == 0 && lp != 0 { f.loops[lp as usize - 1] -= 1; } return Err(t); }
            i += 1;
        }
        st.steps += 1 + (i - ip as usize) as u64;
        if self.prof { *self.covered.entry(code.id).or_insert(0) += 1 + (i - ip as usize) as u64; }
        st.frm().ip = i as u32;
        match &bb.tm {
            Tm::Goto(t) => { let f = st.frm(); f.bb = *t; f.ip = 0; }
            Tm::Return => return self.do_return(st),
            Tm::Call(c) => return self.do_call(st, c),
            Tm::Switch { op, w, targets, other } => {
                let v = self.sval(st, op)?;
                let v = match st.known(v) { Some(c) => V::C(c), None => v };
                let t = match v {
                    V::C(c) => targets.iter().find(|t| t.0 == c).map(|t| t.1).unwrap_or(*other),
                    V::S(_) => {
                        let mut conds: Vec<V> = vec![];
                        let mut dests: Vec<u32> = vec![];
                        let mut rest = V::T;
                        for (val, t) in targets {
                            let c = bin(Op::Eq, v, V::C(*val), *w);
                            rest = and(rest, not(c));
                            match dests.iter().position(|d| d == t) { Some(k) => conds[k] = or(conds[k], c), None => { conds.push(c); dests.push(*t); } }
                        }
                        match dests.iter().position(|d| d == other) { Some(k) => conds[k] = or(conds[k], rest), None => { conds.push(rest); dests.push(*other); } }
                        let mut succ = self.fork_on(st, &conds);
                        for (k, x) in succ.iter_mut() { let f = x.frm(); f.bb = dests[*k]; f.ip = 0; }
                        return self.resume(st, succ.into_iter().map(|x| x.1).collect());
                    }
                };
                let f = st.frm(); f.bb = t; f.ip = 0;
            }
            Tm::DropStatic { place, f, target } => {
                let (a, m) = self.place(st, place)?;
                let arg = if place.is_unsized(*f) { Arg::P(a, m) } else { Arg::S(a) };
                return self.invoke(st, *f, vec![arg], RDest::None, Some(*target), 0);
            }
            Tm::DropDyn { place, target } => {
                let (a, m) = self.place(st, place)?;
                let vt = st.conc(m)? as u64;
                let fp = self.load(st, vt, 8)?;
                if fp == V::C(0) { let f = st.frm(); f.bb = *target; f.ip = 0; return Ok(()); }
                let id = self.call_addr(st, fp)?;
                return self.invoke(st, id, vec![Arg::S(a)], RDest::None, Some(*target), 0);
            }
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.sval(st, cond)?;
                match st.known(v) {
                    Some(c) => {
                        if (c != 0) != *expected { return Err(Trap::Panic(msg.clone())); }
                        let f = st.frm(); f.bb = *target; f.ip = 0;
                    }
                    None => {
                        let ok = bin(Op::Eq, v, V::C(*expected as u128), 8);
                        return Err(Trap::Split(vec![ok, not(ok)])).or_else(|t| match t {
                            Trap::Split(c) => {
                                let succ = self.fork_on(st, &c);
                                // re-executed with the condition decided
                                self.resume(st, succ.into_iter().map(|x| x.1).collect())
                            }
                            t => Err(t),
                        });
                    }
                }
            }
            Tm::Unreachable => return Err(Trap::Unsup(format!("reached unreachable code in {}", code.name))),
            Tm::Stop(m) => return Err(Trap::Unsup(format!("{m} in {}", code.name))),
        }
        Ok(())
    }
}

/// calls whose small, pointer-free result may be joined over the paths of the callee
fn big_or(mut v: Vec<V>) -> V {
    // conditions over one variable collapse to a table first
    v.sort_by_key(|x| match x { V::C(_) => (0, 0), V::S(e) => (info(*e).vars.len(), info(*e).vars[0]) });
    while v.len() > 1 { v = v.chunks(2).map(|c| if c.len() == 2 { or(c[0], c[1]) } else { c[0] }).collect(); }
    v[0]
}
fn has_ptr(t: rustc_public::ty::Ty, cnt: bool) -> bool {
    use rustc_public::CrateDefType;
    use rustc_public::ty::*;
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Float(_) | RigidTy::Never => false,
            RigidTy::Int(i) => matches!(i, IntTy::Isize),
            RigidTy::Uint(u) => matches!(u, UintTy::Usize) || cnt && matches!(u, UintTy::U8),
            RigidTy::Adt(d, args) => d.variants().iter().any(|v| v.fields().iter().any(|f| has_ptr(f.ty_with_args(&args), cnt))),
            RigidTy::Tuple(ts) => ts.iter().any(|t| has_ptr(*t, cnt)),
            RigidTy::Array(t, _) => has_ptr(t, cnt),
            _ => true,
        },
        _ => true,
    }
}
fn same_alloc(a: &Alloc, b: &Alloc) -> bool { a.data == b.data && a.sym == b.sym }
#[inline]
fn wto(code: &'static Code) -> &'static crate::join::Wto { code.wto.get_or_init(|| crate::join::wto(code)) }
/// running order of two frames of the same call
fn cmp_frame(x: &Frame, y: &Frame) -> std::cmp::Ordering {
    use std::cmp::Ordering::Equal;
    let o = x.code.id.cmp(&y.code.id);
    if o != Equal { return o; }
    let w = wto(x.code);
    let (p, q) = (&w.path[x.bb as usize], &w.path[y.bb as usize]);
    let at = |f: &Frame, l: u32| f.loops.get(l as usize - 1).copied().unwrap_or(0) + (f.ip == 0 && w.head[f.bb as usize] == l) as u32;
    for (a, b) in p.iter().zip(q.iter()) {
        let o = a.0.cmp(&b.0);
        if o != Equal { return o; }
        if a.1 != 0 { let o = at(x, a.1).cmp(&at(y, b.1)); if o != Equal { return o; } }
    }
    p.len().cmp(&q.len()).then(x.ip.cmp(&y.ip))
}
/// running order of two states: those that made different choices are run one after the other,
/// others by their position
fn cmp(a: &State, b: &State) -> std::cmp::Ordering {
    use std::cmp::Ordering::Equal;
    for (x, y) in a.picks.iter().zip(&b.picks) { if let (Pick::Choice(c), Pick::Choice(d)) = (x, y) { let o = c.cmp(d); if o != Equal { return o; } } }
    match (a.choice, b.choice) { (Some(c), Some(d)) if c != d => return c.cmp(&d), _ => {} }
    for (x, y) in a.frames.iter().zip(&b.frames) {
        let o = cmp_frame(x, y);
        if o != Equal { return o; }
    }
    a.frames.len().cmp(&b.frames.len())
}
/// the first frame in which two states differ
fn split_at(a: &State, b: &State) -> usize {
    a.frames.iter().zip(&b.frames).position(|(x, y)| cmp_frame(x, y) != std::cmp::Ordering::Equal).unwrap_or(a.frames.len().min(b.frames.len()) - 1)
}
/// the disjunction of conjunctions that are the leaves of a tree of forks
fn disj(v: Vec<&[(E, crate::mdd::M)]>) -> V {
    if v.iter().any(|c| c.is_empty()) { return V::T; }
    let mut g: Vec<(E, Vec<&[(E, crate::mdd::M)]>)> = vec![];
    for c in v { match g.iter_mut().find(|x| x.0 == c[0].0) { Some(x) => x.1.push(&c[1..]), None => g.push((c[0].0, vec![&c[1..]])) } }
    let g: Vec<(V, V)> = g.into_iter().map(|(e, r)| (V::S(e), disj(r))).collect();
    if g.iter().all(|x| x.1 == V::T) { return big_or(g.into_iter().map(|x| x.0).collect()); }
    if g.len() == 2 && g[0].0 == not(g[1].0) {
        if g[0].1 == V::T { return or(g[0].0, g[1].1); }
        if g[1].1 == V::T { return or(g[1].0, g[0].1); }
    }
    big_or(g.into_iter().map(|x| and(x.0, x.1)).collect())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Loc { Reg(u32, u16, u8), Mem(u32, u32, u8) }
impl Loc {
    fn get(&self, s: &State) -> V { match self { Loc::Reg(f, r, _) => s.frames[*f as usize].regs[*r as usize], Loc::Mem(f, o, n) => s.frames[*f as usize].mem.load(*o as usize, *n as usize) } }
    fn set(&self, s: &mut State, v: V) { match self { Loc::Reg(f, r, _) => s.frames[*f as usize].regs[*r as usize] = v, Loc::Mem(f, o, n) => s.frames[*f as usize].mem.store(*o as usize, *n as usize, v) } }
    fn width(&self) -> u8 { match self { Loc::Reg(_, _, w) => *w, Loc::Mem(_, _, n) => n * 8 } }
}
fn zero(f: &mut Frame, dead: &[Store]) {
    for d in dead {
        match d {
            Store::Reg(r) => f.regs[*r as usize] = V::C(0),
            Store::Pair(r) => { f.regs[*r as usize] = V::C(0); f.regs[*r as usize + 1] = V::C(0); }
            Store::Mem(o, n) => if *n > 0 { f.mem.zero(*o as usize, *n as usize) },
            Store::Z => {}
        }
    }
}
/// which of these ranges of the frame at `depth` does nothing else in the state point to?
fn unreferenced(s: &State, depth: usize, mut cand: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    let mut refs: Vec<(u32, Option<usize>)> = vec![]; // offset pointed to, and where from inside the frame itself
    let hit = |v: u64| -> Option<u32> { if (v >> 32) as usize == depth { Some(v as u32) } else { None } };
    let scan = |a: &Alloc, own: bool, refs: &mut Vec<(u32, Option<usize>)>| {
        let mut o = 0;
        while o + 8 <= a.data.len() {
            if let Some(p) = hit(u64::from_le_bytes(a.data[o..o + 8].try_into().unwrap())) { refs.push((p, if own { Some(o) } else { None })); }
            o += 8;
        }
        for e in a.sym.iter() { leaves(V::S(e.2), &mut |c| if let Some(p) = hit(c) { refs.push((p, if own { Some(e.0 as usize) } else { None })) }); }
    };
    for (i, f) in s.frames.iter().enumerate() {
        scan(&f.mem, i + 1 == depth, &mut refs);
        for r in &f.regs { match r { V::C(c) => if let Some(p) = hit(*c as u64) { refs.push((p, None)) }, v => leaves(*v, &mut |c| if let Some(p) = hit(c) { refs.push((p, None)) }) } }
        match &f.ret { RDest::Mem(m) => if let Some(p) = hit(*m) { refs.push((p, None)) }, _ => {} }
    }
    for h in s.heap.iter().flatten() { scan(h, false, &mut refs); }
    for h in s.over.values() { scan(h, false, &mut refs); }
    loop {
        let n = cand.len();
        let c2 = cand.clone();
        cand.retain(|&(o, k)| !refs.iter().any(|&(p, from)| (p as usize) >= o && (p as usize) <= o + k && !from.is_some_and(|q| c2.iter().any(|&(o2, k2)| q >= o2 && q < o2 + k2))));
        if cand.len() == n { return cand; }
    }
}
fn leaves(v: V, f: &mut dyn FnMut(u64)) {
    match v {
        V::C(c) => f(c as u64),
        V::S(e) => match &info(e).node { Node::Ite(_, a, b) => { leaves(V::S(*a), f); leaves(V::S(*b), f) } Node::Const(c) => f(*c as u64), _ => {} },
    }
}
fn why(a: &State, b: &State) {
    if a.frames.len() != b.frames.len() || a.marks != b.marks { eprintln!("   frames/marks"); return; }
    for (i, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
        if x.code.id != y.code.id || x.bb != y.bb || x.ip != y.ip { eprintln!("   pos {i}"); return; }
        for r in 0..x.regs.len() { if x.regs[r] != y.regs[r] { eprintln!("   frame {i} {} reg {r}: {:?} {:?} ptr={} local {:?}", x.code.name, x.regs[r], y.regs[r], reg_ptr(x.code, r as u16, false), x.code.locals.iter().position(|s| matches!(s, Store::Reg(q) if *q as usize == r) || matches!(s, Store::Pair(q) if *q as usize == r || *q as usize + 1 == r))); } }
        for o in (0..x.mem.data.len()).step_by(8) { let k = 8.min(x.mem.data.len() - o); if x.mem.load(o, k) != y.mem.load(o, k) { eprintln!("   frame {i} {} mem {o}: {:?} {:?} ptr={} local {:?}", x.code.name, x.mem.load(o, k), y.mem.load(o, k), mem_ptr(x.code, o, k, false), x.code.locals.iter().position(|s| matches!(s, Store::Mem(p, n) if (*p as usize) < o + k && o < *p as usize + *n as usize))); } }
    }
    for i in 0..a.heap.len().max(b.heap.len()) {
        match (a.heap.get(i).and_then(|x| x.as_ref()), b.heap.get(i).and_then(|x| x.as_ref())) { (None, None) => {} (Some(x), Some(y)) => if !same_alloc(x, y) { eprintln!("   heap {i}"); }, _ => eprintln!("   heap {i} presence") }
    }
    if a.over.len() != b.over.len() { eprintln!("   over"); }
}
/// the scalar places in which two states differ, if that is all they differ in
fn diff(a: &State, b: &State) -> Option<Vec<Loc>> {
    if a.frames.len() != b.frames.len() || a.marks != b.marks || a.jobs != b.jobs || a.picks.len() != b.picks.len() || a.choice.is_some() || b.choice.is_some() { return None; }
    for (x, y) in a.picks.iter().zip(&b.picks) { match (x, y) { (Pick::Var(v), Pick::Var(w)) if v == w => {} (Pick::Choice(c), Pick::Choice(d)) if c == d => {} _ => return None } }
    let ptr = |x: V, y: V| matches!((x, y), (V::C(p), V::C(q)) if p >> 32 != 0 && q >> 32 != 0 && p >> 56 == 0 && q >> 56 == 0);
    let mut ls = vec![];
    for (i, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate().rev() {
        if x.code.id != y.code.id || x.bb != y.bb || x.ip != y.ip || x.ret != y.ret || x.ret_bb != y.ret_bb { return None; }
        if x.regs != y.regs {
            for r in 0..x.regs.len() {
                let (p, q) = (x.regs[r], y.regs[r]);
                if p == q { continue; }
                if reg_ptr(x.code, r as u16, !p.is_sym() && !q.is_sym()) { return None; }
                let w = match (p, q) { (V::S(e), V::S(f)) => { if width(e) != width(f) { return None; } width(e) } (V::S(e), _) | (_, V::S(e)) => width(e), (V::C(c), V::C(d)) => { if ptr(p, q) { return None; } reg_width(x.code, r as u16)?; let _ = (c, d); reg_width(x.code, r as u16)? } };
                ls.push(Loc::Reg(i as u32, r as u16, w));
                if ls.len() > 16 { return None; }
            }
        }
        if !same_alloc(&x.mem, &y.mem) {
            let n = x.mem.data.len();
            let mut o = 0;
            while o < n {
                let k = 8.min(n - o);
                let (p, q) = (x.mem.load(o, k), y.mem.load(o, k));
                if p != q {
                    if mem_ptr(x.code, o, k, !p.is_sym() && !q.is_sym()) { return None; }
                    let whole = |m: &Alloc| !m.has_sym(o, k) || m.sym.iter().any(|e| e.0 as usize == o && e.1 as usize == k);
                    if whole(&x.mem) && whole(&y.mem) {
                        if k == 8 && ptr(p, q) { return None; }
                        ls.push(Loc::Mem(i as u32, o as u32, k as u8));
                    } else {
                        for t in 0..k { if x.mem.byte(o + t) != y.mem.byte(o + t) { ls.push(Loc::Mem(i as u32, (o + t) as u32, 1)); } }
                    }
                    if ls.len() > 16 { return None; }
                }
                o += 8;
            }
        }
    }
    let n = a.heap.len().max(b.heap.len());
    for i in 0..n {
        match (a.heap.get(i).and_then(|x| x.as_ref()), b.heap.get(i).and_then(|x| x.as_ref())) {
            (None, None) => {}
            (Some(x), Some(y)) => if !Rc::ptr_eq(x, y) && !same_alloc(x, y) { return None; },
            _ => return None,
        }
    }
    if a.over.len() != b.over.len() { return None; }
    for (k, p) in a.over.iter() { match b.over.get(k) { Some(q) => if !Rc::ptr_eq(p, q) && !same_alloc(p, q) { return None; }, None => return None } }
    Some(ls)
}
/// does the type of a local hold pointers or positions (or, with `cnt`, small counts)?
fn local_ptr(code: &'static Code, i: usize, cnt: bool) -> bool {
    static mut C: Option<HashMap<(u32, bool), Vec<Option<bool>>>> = None;
    #[allow(static_mut_refs)]
    let v = unsafe { C.get_or_insert_with(HashMap::new).entry((code.id, cnt)).or_insert_with(|| vec![None; code.locals.len()]) };
    if let Some(b) = v[i] { return b; }
    let b = has_ptr(crate::join::info_of(code).local_ty(i), cnt);
    v[i] = Some(b);
    b
}
/// does the register belong to a local that may hold a pointer, a length or a position?
fn reg_ptr(code: &'static Code, r: u16, cnt: bool) -> bool {
    code.locals.iter().enumerate().any(|(i, s)| match s { Store::Reg(q) => *q == r && local_ptr(code, i, cnt), Store::Pair(q) => (*q == r || *q + 1 == r) && local_ptr(code, i, cnt), _ => false })
}
fn mem_ptr(code: &'static Code, o: usize, k: usize, cnt: bool) -> bool {
    code.locals.iter().enumerate().any(|(i, s)| match s { Store::Mem(p, n) => (*p as usize) < o + k && o < *p as usize + *n as usize && local_ptr(code, i, cnt), _ => false })
}
/// bit width of the values a register holds
fn reg_width(code: &Code, r: u16) -> Option<u8> {
    for (i, s) in code.locals.iter().enumerate() {
        match s { Store::Reg(q) if *q == r => return match code.cls[i].0 { Cls::S(n) => Some(n as u8 * 8), _ => None }, Store::Pair(q) if *q == r || *q + 1 == r => return Some(64), _ => {} }
    }
    None
}

impl V { fn max_meta(self, o: V) -> V { let _ = self; o } }
impl PlaceIR {
    /// the drop glue of an unsized place takes a wide pointer
    fn is_unsized(&self, f: u32) -> bool {
        match code(f) { Ok(c) => matches!(c.cls[1].0, Cls::P), Err(_) => false }
    }
}
pub fn cp_calls(id: u32) -> &'static mut u64 { &mut cp().fns[id as usize].calls }

fn spread_size(code: &Code, l: usize, k: usize) -> usize {
    let f = &cp().fns[code.id as usize];
    let body = f.inst.body().unwrap();
    let ty = body.locals()[l].ty;
    let kk = ty.kind();
    match kk.rigid() { Some(rustc_public::ty::RigidTy::Tuple(ts)) => tyi(ts[k]).size as usize, _ => 8 }
}

/// when the first violation was found by any worker (shared memory), and for how long to look for others
pub static FOUND: std::sync::atomic::AtomicPtr<std::sync::atomic::AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
const GRACE: u64 = 45_000;
fn millis() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis() as u64) }
