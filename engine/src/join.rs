//! Where forked paths may be joined again: immediate post-dominators and dead locals at a block.
use crate::compile::*;
use rustc_public::mir::*;
use std::collections::HashMap;

pub struct JoinInfo { body: Option<Body>, live: Option<Vec<Vec<u64>>>, dead: HashMap<u32, (Vec<Store>, Vec<Store>)>, direct: Vec<Vec<u64>> }

static mut INFO: Option<HashMap<u32, JoinInfo>> = None;
#[allow(static_mut_refs)]
pub fn info_of(code: &'static Code) -> &'static mut JoinInfo {
    unsafe { INFO.get_or_insert_with(HashMap::new).entry(code.id).or_insert_with(|| build(code)) }
}

fn succs(t: &Tm) -> Vec<u32> {
    match t {
        Tm::Goto(t) => vec![*t],
        Tm::Switch { targets, other, .. } => { let mut v: Vec<u32> = targets.iter().map(|x| x.1).collect(); v.push(*other); v }
        Tm::DropStatic { target, .. } | Tm::DropDyn { target, .. } | Tm::Assert { target, .. } => vec![*target],
        Tm::Call(c) => c.target.into_iter().collect(),
        Tm::Return | Tm::Unreachable | Tm::Stop(_) => vec![],
    }
}

fn build(code: &'static Code) -> JoinInfo {
    let body = cp().fns[code.id as usize].inst.body();
    JoinInfo { body, live: None, dead: HashMap::new(), direct: vec![] }
}

/// The order in which forked paths of a function are run: a weak topological order of its blocks
/// (loops are components with an iteration count), and the blocks at which paths are compared.
pub struct Wto { pub path: Vec<Box<[(u32, u32)]>>, pub head: Vec<u32>, pub last: Vec<u32>, pub join: Vec<bool> }
enum El { B(u32), C(u32, Vec<El>) }
pub fn wto(code: &Code) -> Wto {
    let n = code.bbs.len();
    let sc: Vec<Vec<u32>> = code.bbs.iter().map(|b| succs(&b.tm)).collect();
    struct W<'a> { sc: &'a [Vec<u32>], dfn: Vec<u32>, num: u32, stack: Vec<u32> }
    impl W<'_> {
        fn component(&mut self, v: u32) -> El {
            let mut p = vec![];
            for &s in &self.sc[v as usize] { if self.dfn[s as usize] == 0 { self.visit(s, &mut p); } }
            p.reverse();
            El::C(v, p)
        }
        fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v as usize] = self.num;
            let mut head = self.num;
            let mut lp = false;
            for &s in &self.sc[v as usize] {
                let m = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
                if m <= head { head = m; lp = true; }
            }
            if head == self.dfn[v as usize] {
                self.dfn[v as usize] = u32::MAX;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v { self.dfn[e as usize] = 0; e = self.stack.pop().unwrap(); }
                    let c = self.component(v);
                    part.push(c);
                } else { part.push(El::B(v)); }
            }
            head
        }
    }
    let mut w = W { sc: &sc, dfn: vec![0; n], num: 0, stack: vec![] };
    let mut top = vec![];
    w.visit(0, &mut top);
    top.reverse();
    let mut o = Wto { path: vec![Box::new([]); n], head: vec![0; n], last: vec![], join: vec![false; n] };
    fn number(els: &[El], at: u32, pre: &[(u32, u32)], o: &mut Wto) {
        for (i, e) in els.iter().enumerate() {
            let pos = at + i as u32;
            let mut p = pre.to_vec();
            match e {
                El::B(b) => { p.push((pos, 0)); o.path[*b as usize] = p.into(); }
                El::C(h, els) => {
                    let l = o.last.len() as u32;
                    o.last.push(0);
                    p.push((pos, l + 1));
                    o.head[*h as usize] = l + 1;
                    let mut q = p.clone();
                    q.push((0, 0));
                    o.path[*h as usize] = q.into();
                    number(els, 1, &p, o);
                    o.last[l as usize] = o.last.len() as u32;
                }
            }
        }
    }
    number(&top, 0, &[], &mut o);
    let mut np = vec![0; n];
    for (i, s) in sc.iter().enumerate() {
        let call = matches!(code.bbs[i].tm, Tm::Call(_) | Tm::DropStatic { .. } | Tm::DropDyn { .. });
        for &t in s { np[t as usize] += if call { 2 } else { 1 }; }
    }
    for i in 0..n { o.join[i] = np[i] >= 2; }
    o
}

fn use_place(s: &mut Vec<u64>, p: &Place) {
    s[p.local / 64] |= 1 << (p.local % 64);
    for e in &p.projection { if let ProjectionElem::Index(l) = e { s[*l / 64] |= 1 << (*l % 64); } }
}
fn use_op(s: &mut Vec<u64>, o: &Operand) { if let Operand::Copy(p) | Operand::Move(p) = o { use_place(s, p) } }
fn use_rv(s: &mut Vec<u64>, rv: &Rvalue) {
    match rv {
        Rvalue::AddressOf(_, q) | Rvalue::Ref(_, _, q) | Rvalue::Discriminant(q) | Rvalue::Reborrow(_, _, q) | Rvalue::CopyForDeref(q) | Rvalue::Len(q) => use_place(s, q),
        Rvalue::Aggregate(_, ops) => for o in ops { use_op(s, o) },
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { use_op(s, a); use_op(s, b) }
        Rvalue::Cast(_, a, _) | Rvalue::Repeat(a, _) | Rvalue::UnaryOp(_, a) | Rvalue::Use(a, _) => use_op(s, a),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

impl JoinInfo {
    pub fn local_ty(&self, i: usize) -> rustc_public::ty::Ty { self.body.as_ref().unwrap().locals()[i].ty }
    fn liveness(&mut self) {
        let b = self.body.as_ref().unwrap();
        let nl = b.locals().len();
        let w = nl.div_ceil(64);
        let nb = b.blocks.len();
        // borrowed locals: live while their storage is
        let mut borrowed = vec![false; nl];
        let mut has_storage = vec![false; nl];
        for bb in &b.blocks {
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(_, Rvalue::Ref(_, _, q) | Rvalue::AddressOf(_, q)) => if !q.projection.iter().any(|p| matches!(p, ProjectionElem::Deref)) { borrowed[q.local] = true; },
                    StatementKind::StorageLive(l) => has_storage[*l] = true,
                    _ => {}
                }
            }
        }
        let mut live: Vec<Vec<u64>> = vec![vec![0; w]; nb];
        let set = |v: &mut Vec<u64>, l: usize| v[l / 64] |= 1 << (l % 64);
        let clr = |v: &mut Vec<u64>, l: usize| v[l / 64] &= !(1 << (l % 64));
        // backward liveness of locals that are never borrowed
        let mut ch = true;
        while ch {
            ch = false;
            for i in (0..nb).rev() {
                let bb = &b.blocks[i];
                let mut s = vec![0u64; w];
                for t in bb.terminator.kind.successors() { for k in 0..w { s[k] |= live[t][k]; } }
                let def = |s: &mut Vec<u64>, p: &Place| { if p.projection.is_empty() { clr(s, p.local); } else { use_place(s, p); } };
                match &bb.terminator.kind {
                    TerminatorKind::Call { func, args, destination, .. } => {
                        def(&mut s, destination);
                        use_op(&mut s, func);
                        for a in args { use_op(&mut s, a); }
                    }
                    TerminatorKind::Return => set(&mut s, 0),
                    TerminatorKind::SwitchInt { discr, .. } => use_op(&mut s, discr),
                    TerminatorKind::Drop { place, .. } => use_place(&mut s, place),
                    TerminatorKind::Assert { cond, msg, .. } => {
                        use_op(&mut s, cond);
                        match msg {
                            AssertMessage::BoundsCheck { len, index } => { use_op(&mut s, len); use_op(&mut s, index) }
                            AssertMessage::Overflow(_, a, b) => { use_op(&mut s, a); use_op(&mut s, b) }
                            AssertMessage::OverflowNeg(a) | AssertMessage::DivisionByZero(a) | AssertMessage::RemainderByZero(a) => use_op(&mut s, a),
                            _ => {}
                        }
                    }
                    _ => {}
                }
                for st in bb.statements.iter().rev() {
                    match &st.kind {
                        StatementKind::Assign(p, rv) => { def(&mut s, p); use_rv(&mut s, rv); }
                        StatementKind::SetDiscriminant { place, .. } => use_place(&mut s, place),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => use_op(&mut s, o),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { use_op(&mut s, &c.src); use_op(&mut s, &c.dst); use_op(&mut s, &c.count) }
                        _ => {}
                    }
                }
                if s != live[i] { live[i] = s; ch = true; }
            }
        }
        // forward: may the storage of a borrowed local be live at entry?
        let mut stor: Vec<Option<Vec<u64>>> = vec![None; nb];
        let mut e = vec![0u64; w];
        for l in 0..nl { if !has_storage[l] { set(&mut e, l); } }
        stor[0] = Some(e);
        let mut todo = vec![0usize];
        while let Some(i) = todo.pop() {
            let mut s = stor[i].clone().unwrap();
            for st in &b.blocks[i].statements {
                match &st.kind { StatementKind::StorageLive(l) => set(&mut s, *l), StatementKind::StorageDead(l) => clr(&mut s, *l), _ => {} }
            }
            for t in b.blocks[i].terminator.kind.successors() {
                let nw = match &stor[t] { None => s.clone(), Some(o) => o.iter().zip(&s).map(|(a, b)| a | b).collect() };
                if stor[t].as_ref() != Some(&nw) { stor[t] = Some(nw); todo.push(t); }
            }
        }
        self.direct = live.clone();
        for i in 0..nb {
            for l in 0..nl {
                if borrowed[l] {
                    let s = stor[i].as_ref().map_or(true, |v| v[l / 64] >> (l % 64) & 1 == 1);
                    if s { set(&mut live[i], l); } else { clr(&mut live[i], l); }
                }
            }
        }
        self.live = Some(live);
    }
    /// storage of the locals that are dead when block `bb` is entered, and of those that are no
    /// longer named but were borrowed (dead if nothing points to them)
    pub fn dead(&mut self, code: &Code, bb: u32) -> &(Vec<Store>, Vec<Store>) {
        if !self.dead.contains_key(&bb) {
            if self.live.is_none() { self.liveness(); }
            let lv = &self.live.as_ref().unwrap()[bb as usize];
            let dr = &self.direct[bb as usize];
            let bit = |v: &Vec<u64>, l: usize| v[l / 64] >> (l % 64) & 1 == 1;
            let f = |g: &dyn Fn(usize) -> bool| (0..code.locals.len()).filter(|&l| g(l)).map(|l| code.locals[l]).filter(|s| !matches!(s, Store::Z)).collect::<Vec<_>>();
            let d = (f(&|l| !bit(lv, l)), f(&|l| bit(lv, l) && !bit(dr, l)));
            self.dead.insert(bb, d);
        }
        &self.dead[&bb]
    }
}
