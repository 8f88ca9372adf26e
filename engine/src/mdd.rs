//! Multi-valued decision diagrams over the finite-domain variables: a canonical form for path
//! conditions that prunes infeasible branches without a solver call.  Every assertion and every
//! reported path still goes to z3.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type M = u32;
pub const F: M = 0;
pub const T: M = 1;

pub struct Mdd {
    nodes: Vec<(u32, Rc<[(Dom, M)]>)>,
    map: HashMap<(u32, Rc<[(Dom, M)]>), M, Fx>,
    memo: HashMap<(u8, M, M), M, Fx>,
    conv: HashMap<E, Option<M>, Fx>,
    cas: HashMap<E, Option<Rc<Vec<(u128, M)>>>, Fx>,
    pub overflow: u64,
}

static mut MDD: Option<Mdd> = None;
#[allow(static_mut_refs)]
pub fn md() -> &'static mut Mdd {
    unsafe {
        if MDD.is_none() { MDD = Some(Mdd { nodes: vec![(u32::MAX, Rc::from([])), (u32::MAX, Rc::from([]))], map: Default::default(), memo: Default::default(), conv: Default::default(), cas: Default::default(), overflow: 0 }); }
        MDD.as_mut().unwrap()
    }
}
#[allow(static_mut_refs)]
/// drop every diagram (counters are kept)
pub fn reset() { let o = md().overflow; unsafe { MDD = None; } md().overflow = o; }

const LIMIT: usize = 6_000_000;
fn dand(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }

impl Mdd {
    pub fn size(&self) -> usize { self.nodes.len() }
    fn mk(&mut self, var: u32, mut e: Vec<(Dom, M)>) -> M {
        // merge equal children, canonical order by child
        e.sort_by_key(|x| x.1);
        let mut o: Vec<(Dom, M)> = vec![];
        for (d, m) in e {
            if d == [0; 4] { continue; }
            match o.last_mut() { Some(l) if l.1 == m => for k in 0..4 { l.0[k] |= d[k]; }, _ => o.push((d, m)) }
        }
        if o.len() == 1 { return o[0].1; }
        let k: (u32, Rc<[(Dom, M)]>) = (var, o.into());
        if let Some(&m) = self.map.get(&k) { return m; }
        let m = self.nodes.len() as M;
        self.nodes.push(k.clone());
        self.map.insert(k, m);
        m
    }
    pub fn leaf(&mut self, var: u32, f: &dyn Fn(usize) -> bool) -> M {
        let n = ar().vars[var as usize].dom.len();
        let (mut a, mut b) = ([0u64; 4], [0u64; 4]);
        for i in 0..n { if f(i) { a[i >> 6] |= 1 << (i & 63); } else { b[i >> 6] |= 1 << (i & 63); } }
        self.mk(var, vec![(a, T), (b, F)])
    }
    pub fn dom(&mut self, var: u32, d: &Dom) -> M { let d = *d; self.leaf(var, &|i| dom_has(&d, i)) }
    /// op: 0 and, 1 or, 2 xor
    pub fn apply(&mut self, op: u8, a: M, b: M) -> Option<M> {
        match op {
            0 => { if a == F || b == F { return Some(F); } if a == T || a == b { return Some(b); } if b == T { return Some(a); } }
            1 => { if a == T || b == T { return Some(T); } if a == F || a == b { return Some(b); } if b == F { return Some(a); } }
            _ => { if a == b { return Some(F); } if a == F { return Some(b); } if b == F { return Some(a); } }
        }
        let k = if a < b { (op, a, b) } else { (op, b, a) };
        if let Some(&m) = self.memo.get(&k) { return Some(m); }
        if self.nodes.len() > LIMIT { self.overflow += 1; return None; }
        let (va, vb) = (self.nodes[a as usize].0, self.nodes[b as usize].0);
        let v = va.min(vb);
        let ca = if va == v { self.nodes[a as usize].1.clone() } else { Rc::from([([!0u64; 4], a)]) };
        let cb = if vb == v { self.nodes[b as usize].1.clone() } else { Rc::from([([!0u64; 4], b)]) };
        let mut e = vec![];
        for (d1, m1) in ca.iter() {
            for (d2, m2) in cb.iter() {
                let d = dand(d1, d2);
                if d == [0; 4] { continue; }
                e.push((d, self.apply(op, *m1, *m2)?));
            }
        }
        let r = self.mk(v, e);
        self.memo.insert(k, r);
        Some(r)
    }
    /// diagram of a boolean term; None when the term is not of a supported shape
    pub fn of(&mut self, e: E) -> Option<M> {
        if let Some(&r) = self.conv.get(&e) { return r; }
        let i = info(e);
        let r = match &i.node {
            Node::Const(c) => Some(if *c != 0 { T } else { F }),
            Node::Tab(v, t) => Some(self.leaf(*v, &|k| t[k] != 0)),
            Node::Bin(op, a, b) if width(*a) == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) => {
                let o = match op { Op::And => 0, Op::Or => 1, _ => 2 };
                match (self.of(*a), self.of(*b)) {
                    (Some(x), Some(y)) => { let r = self.apply(o, x, y); if *op == Op::Eq { r.and_then(|r| self.apply(2, r, T)) } else { r } }
                    _ => None,
                }
            }
            Node::Bin(op @ (Op::Ult | Op::Ule | Op::Eq), a, b) if dec_bound(*a, *b) => {
                let (d, k, rev) = match (dec_terms(val_of(*a)), dec_terms(val_of(*b))) { (Some(d), None) => (d, info(*b).lo, false), (None, Some(d)) => (d, info(*a).lo, true), _ => unreachable!() };
                let w = width(*a);
                let mut ds: Vec<u128> = vec![];
                let mut r = k;
                for _ in 0..d.len() { ds.push(r % 10); r /= 10; }
                ds.reverse();
                // three-way comparison of the digits, least significant first
                let (mut lt, mut eq) = if r > 0 { (V::T, V::F) } else { (V::F, V::T) };
                if r == 0 { for (t, c) in d.iter().zip(&ds).rev() {
                    let (l, e) = (bin(Op::Ult, val_of(*t), V::C(*c), w), bin(Op::Eq, val_of(*t), V::C(*c), w));
                    lt = or(l, and(e, lt));
                    eq = and(e, eq);
                } }
                let v = match (op, rev) { (Op::Eq, _) => eq, (Op::Ult, false) => lt, (Op::Ule, false) => or(lt, eq), (Op::Ule, true) => not(lt), _ => not(or(lt, eq)) };
                match v { V::C(c) => Some(if c != 0 { T } else { F }), V::S(e) => self.of(e) }
            }
            _ => {
                let n: usize = i.vars.iter().map(|v| ar().vars[*v as usize].dom.len()).try_fold(1usize, |a, b| a.checked_mul(b)).unwrap_or(usize::MAX);
                if let Some(cs) = self.cases(e) {
                    Some(cs.iter().find(|x| x.0 == 1).map(|x| x.1).unwrap_or(F))
                } else if n <= 5000 { Some(self.enumerate(e, &i.vars.clone(), 0, &mut HashMap::new())) } else { None }
            }
        };
        self.conv.insert(e, r);
        r
    }
    /// values of a term with the condition under which it takes each (at most 300 values)
    pub fn cases(&mut self, e: E) -> Option<Rc<Vec<(u128, M)>>> {
        if let Some(r) = self.cas.get(&e) { return r.clone(); }
        let r = self.cases1(e);
        self.cas.insert(e, r.clone());
        r
    }
    fn collect(&mut self, it: Vec<(u128, M)>) -> Option<Rc<Vec<(u128, M)>>> {
        let mut o: Vec<(u128, M)> = vec![];
        let mut ix: HashMap<u128, usize> = HashMap::new();
        for (v, m) in it {
            if m == F { continue; }
            match ix.get(&v) { Some(&i) => o[i].1 = self.apply(1, o[i].1, m)?, None => { ix.insert(v, o.len()); o.push((v, m)); if o.len() > 1200 { return None; } } }
        }
        Some(Rc::new(o))
    }
    fn cases1(&mut self, e: E) -> Option<Rc<Vec<(u128, M)>>> {
        let i = info(e);
        let w = i.width;
        let v: Vec<(u128, M)> = match &i.node {
            Node::Const(c) => vec![(*c, T)],
            Node::Tab(v, t) => {
                let mut vals: Vec<u64> = t.to_vec();
                vals.sort(); vals.dedup();
                if vals.len() > 1200 { return None; }
                vals.into_iter().map(|x| (x as u128, self.leaf(*v, &|k| t[k] == x))).collect()
            }
            Node::Ite(c, a, b) => {
                let m = self.of(*c)?;
                let nm = self.apply(2, m, T)?;
                let (x, y) = (self.cases(*a)?, self.cases(*b)?);
                let mut o = vec![];
                for (v, k) in x.iter() { o.push((*v, self.apply(0, m, *k)?)); }
                for (v, k) in y.iter() { o.push((*v, self.apply(0, nm, *k)?)); }
                o
            }
            Node::Zext(a) if width(*a) == 1 => { let m = self.of(*a)?; vec![(1, m), (0, self.apply(2, m, T)?)] }
            Node::Zext(a) => self.cases(*a)?.to_vec(),
            Node::Sext(a) => { let aw = width(*a); self.cases(*a)?.iter().map(|x| (sx(x.0, aw) as u128 & mask(w), x.1)).collect() }
            Node::Extract(a, l) => self.cases(*a)?.iter().map(|x| ((x.0 >> l) & mask(w), x.1)).collect(),
            Node::Concat(a, b) => {
                let (x, y) = (self.cases(*a)?, self.cases(*b)?);
                if x.len() * y.len() > 5000 { return None; }
                let lw = width(*b);
                let mut o = vec![];
                for (p, k) in x.iter() { for (q, l) in y.iter() { o.push((p << lw | q, self.apply(0, *k, *l)?)); } }
                o
            }
            Node::Bin(op, a, b) => {
                if width(*a) == 1 { let m = self.of(e)?; vec![(1, m), (0, self.apply(2, m, T)?)] } else {
                    let aw = width(*a);
                    let (x, y) = (self.cases(*a)?, self.cases(*b)?);
                    if x.len() * y.len() > 5000 { return None; }
                    let mut o = vec![];
                    for (p, k) in x.iter() { for (q, l) in y.iter() { o.push((cbin(*op, *p, *q, aw), self.apply(0, *k, *l)?)); } }
                    o
                }
            }
            Node::Dec(_) => return None,
        };
        self.collect(v)
    }
    fn enumerate(&mut self, e: E, vars: &[u32], k: usize, asg: &mut HashMap<u32, usize>) -> M {
        if k == vars.len() { return if eval(e, &|v| asg[&v], &mut HashMap::default()) != 0 { T } else { F }; }
        let n = ar().vars[vars[k] as usize].dom.len();
        let mut es = vec![];
        for i in 0..n {
            asg.insert(vars[k], i);
            let m = self.enumerate(e, vars, k + 1, asg);
            let mut d = [0u64; 4];
            d[i >> 6] |= 1 << (i & 63);
            es.push((d, m));
        }
        self.mk(vars[k], es)
    }
    pub fn node(&self, m: M) -> (u32, Rc<[(Dom, M)]>) { self.nodes[m as usize].clone() }
    pub fn vars(&self, m: M, out: &mut Vec<u32>) {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![m];
        while let Some(x) = st.pop() { if x <= T || !seen.insert(x) { continue; } let (v, c) = &self.nodes[x as usize]; if !out.contains(v) { out.push(*v); } for (_, k) in c.iter() { st.push(*k); } }
    }
    /// a pseudo-random assignment (variable, index) satisfying m, where m != F
    pub fn pick_random(&self, m: M, rng: &mut u64) -> Vec<(u32, usize)> {
        let mut r = vec![];
        let mut m = m;
        let mut next = || { *rng ^= *rng << 13; *rng ^= *rng >> 7; *rng ^= *rng << 17; *rng };
        while m > T {
            let (v, c) = &self.nodes[m as usize];
            let n = ar().vars[*v as usize].dom.len();
            let ok: Vec<(usize, M)> = c.iter().filter(|x| x.1 != F).flat_map(|x| dom_iter(&x.0).filter(|&i| i < n).map(|i| (i, x.1)).collect::<Vec<_>>()).collect();
            let (i, k) = ok[(next() % ok.len() as u64) as usize];
            r.push((*v, i));
            m = k;
        }
        r
    }
    /// some assignment (variable, index) satisfying m, where m != F
    pub fn pick(&self, m: M) -> Vec<(u32, usize)> {
        let mut r = vec![];
        let mut m = m;
        while m > T {
            let (v, c) = &self.nodes[m as usize];
            let (d, n) = c.iter().find(|x| x.1 != F).unwrap();
            r.push((*v, dom_first(d).unwrap()));
            m = *n;
        }
        r
    }
}

fn dec_bound(a: E, b: E) -> bool {
    match (&info(a).node, &info(b).node) { (Node::Const(_), Node::Const(_)) => false, (Node::Const(_), _) => dec_terms(val_of(b)).is_some(), (_, Node::Const(_)) => dec_terms(val_of(a)).is_some(), _ => false }
}
