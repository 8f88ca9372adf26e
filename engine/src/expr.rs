//! Hash-consed bit-vector expressions over finite-domain symbolic variables.
//!
//! Every symbolic variable ranges over a finite table of at most 256 values.  An expression that
//! depends on one variable only is kept in normal form as the table of its values (`Tab`); other
//! expressions are ordinary bit-vector terms that z3 decides.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Tab(u32, Rc<[u64]>),
    Bin(Op, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u8), // low bit offset; width is the node's width
    Concat(E, E),   // hi, lo
    Dec(Rc<[E]>),   // decimal digits, most significant first, each of the node's width in 0..=9
}

pub struct Info {
    pub node: Node,
    pub width: u8,
    pub lo: u128,
    pub hi: u128,
    pub vars: Rc<[u32]>,
}

pub struct Var {
    pub dom: Rc<[u64]>, // raw values
}

pub struct Arena {
    pub nodes: Vec<Info>,
    pub map: HashMap<(Node, u8), E, Fx>,
    pub vars: Vec<Var>,
    pub varmap: HashMap<(u32, Rc<[u64]>), u32>,
    pub z3: Vec<Option<usize>>, // cached z3 terms (opaque pointers)
}

#[derive(Default, Clone, Copy)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH { FxH(0) }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0.rotate_left(20) }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0xf1357aea2e62a9c5); }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena { nodes: vec![], map: HashMap::default(), vars: vec![], varmap: HashMap::new(), z3: vec![] });
        }
        ARENA.as_mut().unwrap()
    }
}

pub fn reset() { unsafe { ARENA = None; } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    C(u128),
    S(E),
}
impl V {
    #[inline(always)]
    pub fn c(self) -> Option<u128> { match self { V::C(x) => Some(x), V::S(_) => None } }
    pub fn is_sym(self) -> bool { matches!(self, V::S(_)) }
    pub const T: V = V::C(1);
    pub const F: V = V::C(0);
}

#[inline(always)]
pub fn mask(w: u8) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

fn intern(node: Node, width: u8, lo: u128, hi: u128, vars: Rc<[u32]>) -> E {
    let a = ar();
    let k = (node, width);
    if let Some(&e) = a.map.get(&k) { return e; }
    let e = a.nodes.len() as E;
    a.nodes.push(Info { node: k.0.clone(), width, lo, hi, vars });
    a.z3.push(None);
    a.map.insert(k, e);
    e
}

fn merge_vars(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a == b || b.is_empty() { return a.clone(); }
    if a.is_empty() { return b.clone(); }
    let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
    v.sort(); v.dedup();
    v.into()
}

pub fn width(e: E) -> u8 { ar().nodes[e as usize].width }
pub fn info(e: E) -> &'static Info { &ar().nodes[e as usize] }

/// node id for a constant (only used as an operand of a composite node)
pub fn kst(v: u128, w: u8) -> E { intern(Node::Const(v & mask(w)), w, v & mask(w), v & mask(w), Rc::from([])) }
pub fn node_of(v: V, w: u8) -> E { match v { V::C(c) => kst(c, w), V::S(e) => { debug_assert_eq!(width(e), w); e } } }
pub fn val_of(e: E) -> V { match info(e).node { Node::Const(c) => V::C(c), _ => V::S(e) } }

pub fn new_var(idx: u32, dom: Rc<[u64]>) -> u32 {
    let a = ar();
    if let Some(&v) = a.varmap.get(&(idx, dom.clone())) { return v; }
    let v = a.vars.len() as u32;
    a.vars.push(Var { dom: dom.clone() });
    a.varmap.insert((idx, dom), v);
    v
}

pub fn tab(var: u32, t: Vec<u64>, w: u8) -> V {
    let f = t[0];
    if t.iter().all(|&x| x == f) { return V::C(f as u128); }
    let lo = *t.iter().min().unwrap() as u128;
    let hi = *t.iter().max().unwrap() as u128;
    V::S(intern(Node::Tab(var, t.into()), w, lo, hi, Rc::from([var])))
}

pub fn as_tab(e: E) -> Option<(u32, Rc<[u64]>)> {
    match &info(e).node { Node::Tab(v, t) => Some((*v, t.clone())), _ => None }
}

pub fn range(v: V) -> (u128, u128) { match v { V::C(c) => (c, c), V::S(e) => { let i = info(e); (i.lo, i.hi) } } }

pub fn cbin(op: Op, a: u128, b: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        Op::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => (sx(a, w) >> b.min(127)) as u128,
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => return (sx(a, w) <= sx(b, w)) as u128,
    };
    r & m
}

fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

/// decimal view: digit terms of width w
fn as_dec(v: V, w: u8) -> Option<Vec<E>> {
    match v {
        V::C(c) if c <= 9 => Some(vec![kst(c, w)]),
        V::C(_) => None,
        V::S(e) => match &info(e).node {
            Node::Dec(d) => Some(d.to_vec()),
            _ if info(e).hi <= 9 => Some(vec![e]),
            Node::Tab(v, t) if info(e).hi < 10_000_000 => {
                let mut d = vec![];
                let mut p = 1u64;
                while p <= info(e).hi as u64 { d.push(node_of(tab(*v, t.iter().map(|&x| x / p % 10).collect(), w), w)); p *= 10; }
                d.reverse();
                Some(d)
            }
            _ => None,
        },
    }
}
fn mk_dec(mut d: Vec<E>, w: u8) -> V {
    while d.len() > 1 && matches!(info(d[0]).node, Node::Const(0)) { d.remove(0); }
    if d.iter().all(|&x| matches!(info(x).node, Node::Const(_))) {
        let mut r = 0u128;
        for &x in &d { r = r * 10 + info(x).lo; }
        return V::C(r);
    }
    if d.len() == 1 { return val_of(d[0]); }
    let (mut lo, mut hi) = (0u128, 0u128);
    let mut vars: Rc<[u32]> = Rc::from([]);
    for &x in &d {
        lo = lo * 10 + info(x).lo;
        hi = hi * 10 + info(x).hi;
        vars = merge_vars(&vars, &info(x).vars);
    }
    // single-variable decimals collapse to a table
    if vars.len() == 1 && w <= 64 {
        let n = ar().vars[vars[0] as usize].dom.len();
        let t = (0..n).map(|i| { let mut r = 0u128; for &x in &d { r = r * 10 + tab_at(x, i) as u128; } r as u64 }).collect();
        return tab(vars[0], t, w);
    }
    V::S(intern(Node::Dec(d.into()), w, lo, hi, vars))
}
fn tab_at(e: E, i: usize) -> u64 {
    match &info(e).node { Node::Const(c) => *c as u64, Node::Tab(_, t) => t[i], _ => unreachable!() }
}
pub fn dec_terms(v: V) -> Option<Rc<[E]>> {
    match v { V::S(e) => match &info(e).node { Node::Dec(d) => Some(d.clone()), _ => None }, _ => None }
}
fn log10(c: u128) -> Option<usize> {
    let mut k = 0; let mut p = 1u128;
    while p < c { p = p.checked_mul(10)?; k += 1; }
    if p == c { Some(k) } else { None }
}

pub fn bin(op: Op, a: V, b: V, w: u8) -> V {
    if let (V::C(x), V::C(y)) = (a, b) { return V::C(cbin(op, x, y, w)); }
    let rw = if is_cmp(op) { 1 } else { w };
    // table x table / const
    if w <= 64 {
        let ta = match a { V::S(e) => as_tab(e), _ => None };
        let tb = match b { V::S(e) => as_tab(e), _ => None };
        // the top bit of a decimal that is little more than a power of two
        if let (V::S(e), V::C(k)) = (a, b) { if let Node::Dec(_) = &info(e).node {
            if op == Op::LShr && k < w as u128 && info(e).hi >> k == 1 { return zext(bin(Op::Ule, V::C(1 << k), a, w), 1, w); }
            if op == Op::And && k & (k + 1) == 0 && k > 9 && info(e).hi > k && info(e).hi <= 2 * k { return ite(bin(Op::Ule, a, V::C(k), w), a, bin(Op::Sub, a, V::C(k + 1), w), w); }
        } }
        match (&ta, &tb, a, b) {
            (Some((v, t)), None, _, V::C(c)) => return tab(*v, t.iter().map(|&x| cbin(op, x as u128, c, w) as u64).collect(), rw),
            (None, Some((v, t)), V::C(c), _) => return tab(*v, t.iter().map(|&x| cbin(op, c, x as u128, w) as u64).collect(), rw),
            (Some((v, t)), Some((v2, t2)), _, _) if v == v2 =>
                return tab(*v, t.iter().zip(t2.iter()).map(|(&x, &y)| cbin(op, x as u128, y as u128, w) as u64).collect(), rw),
            _ => {}
        }
    }
    let (la, ha) = range(a);
    let (lb, hb) = range(b);
    let m = mask(w);
    // identities
    match op {
        Op::Add => {
            if b == V::C(0) { return a; }
            if a == V::C(0) { return b; }
            if let (Some(da), Some(db)) = (as_dec(a, w), as_dec(b, w)) {
                if let Some(r) = dec_add(&da, &db, w).or_else(|| dec_add(&db, &da, w)) { return r; }
            }
        }
        Op::Sub => { if b == V::C(0) { return a; } if a == b { return V::C(0); } }
        Op::Mul => {
            if b == V::C(1) { return a; }
            if a == V::C(1) { return b; }
            if b == V::C(0) || a == V::C(0) { return V::C(0); }
            let (x, c) = if let V::C(c) = b { (a, Some(c)) } else if let V::C(c) = a { (b, Some(c)) } else { (a, None) };
            if let Some(c) = c {
                if let (Some(k), Some(mut d)) = (log10(c), as_dec(x, w)) {
                    let hx = range(x).1;
                    if k > 0 && hx.checked_mul(c).map_or(false, |p| p <= m) {
                        for _ in 0..k { d.push(kst(0, w)); }
                        return mk_dec(d, w);
                    }
                }
            }
        }
        Op::UDiv => {
            if b == V::C(1) { return a; }
            if let (V::C(c), Some(d)) = (b, dec_terms(a)) {
                if let Some(k) = log10(c) {
                    return if k >= d.len() { V::C(0) } else { mk_dec(d[..d.len() - k].to_vec(), w) };
                }
            }
            if let V::C(c) = b { if c > ha { return V::C(0); } }
        }
        Op::URem => {
            if let (V::C(c), Some(d)) = (b, dec_terms(a)) {
                if let Some(k) = log10(c) {
                    return if k >= d.len() { a } else { mk_dec(d[d.len() - k..].to_vec(), w) };
                }
            }
            if let V::C(c) = b { if c > ha { return a; } }
        }
        Op::And => {
            if a == V::C(0) || b == V::C(0) { return V::C(0); }
            if a == V::C(m) { return b; }
            if b == V::C(m) { return a; }
            if a == b { return a; }
            for (x, y, hx) in [(a, b, ha), (b, a, hb)] {
                if let V::C(c) = y {
                    if (c & (c + 1)) == 0 && hx <= c { return x; }
                    if let V::S(e) = x {
                        if let Node::Bin(o @ (Op::Or | Op::And), p, q) = info(e).node.clone() {
                            if o == Op::Or || matches!(info(p).node, Node::Const(_)) || matches!(info(q).node, Node::Const(_)) {
                                let (l, r) = (bin(Op::And, val_of(p), y, w), bin(Op::And, val_of(q), y, w));
                                return bin(o, l, r, w);
                            }
                        }
                        if let Node::Bin(Op::Shl, _, k) = info(e).node { if let Node::Const(k) = info(k).node { if k < 128 && c >> k == 0 { return V::C(0); } } }
                        if let Node::Ite(cc, p, q) = info(e).node.clone() { return ite(val_of(cc), bin(Op::And, val_of(p), y, w), bin(Op::And, val_of(q), y, w), w); }
                    }
                }
            }
        }
        Op::Or => {
            if a == V::C(0) { return b; }
            if b == V::C(0) { return a; }
            if a == V::C(m) || b == V::C(m) { return V::C(m); }
            if a == b { return a; }
        }
        Op::Xor => { if a == V::C(0) { return b; } if b == V::C(0) { return a; } if a == b { return V::C(0); }
            if w == 1 { if let V::S(e) = a { if b == V::C(1) { if let Node::Bin(Op::Xor, x, y) = info(e).node { if matches!(info(y).node, Node::Const(1)) { return val_of(x); } } } } } }
        Op::Shl | Op::LShr | Op::AShr => {
            if b == V::C(0) { return a; }
            if op == Op::LShr { if let V::C(c) = b {
                if c >= 128 || (ha >> c) == 0 { return V::C(0); }
                if let V::S(e) = a {
                    match info(e).node.clone() {
                        Node::Bin(Op::Or, p, q) => { let (l, r) = (bin(op, val_of(p), b, w), bin(op, val_of(q), b, w)); return bin(Op::Or, l, r, w); }
                        Node::Ite(cc, p, q) => return ite(val_of(cc), bin(op, val_of(p), b, w), bin(op, val_of(q), b, w), w),
                        Node::Bin(Op::Shl, x, k) if info(k).node == Node::Const(c) && info(x).hi.checked_shl(c as u32).map_or(false, |h| h <= m && h >> c == info(x).hi) => return val_of(x),
                        _ => {}
                    }
                }
            } }
            if op == Op::Shl { if let (V::S(e), V::C(_)) = (a, b) { if let Node::Ite(cc, p, q) = info(e).node.clone() { return ite(val_of(cc), bin(op, val_of(p), b, w), bin(op, val_of(q), b, w), w); } } }
        }
        Op::Eq => {
            if a == b { return V::T; }
            if ha < lb || hb < la { return V::F; }
            if w == 1 {
                if b == V::C(1) { return a; }
                if a == V::C(1) { return b; }
                if b == V::C(0) { return not(a); }
                if a == V::C(0) { return not(b); }
            }
            for (x, y) in [(a, b), (b, a)] {
                if let (V::S(e), V::C(c)) = (x, y) {
                    match info(e).node.clone() {
                        Node::Zext(s) => return if c <= mask(width(s)) { bin(Op::Eq, val_of(s), V::C(c), width(s)) } else { V::F },
                        Node::Ite(cc, p, q) => {
                            let ep = bin(Op::Eq, val_of(p), V::C(c), w);
                            let eq = bin(Op::Eq, val_of(q), V::C(c), w);
                            return bite(val_of(cc), ep, eq);
                        }
                        Node::Bin(Op::Xor, p, q) => {
                            if let Node::Const(k) = info(q).node { return bin(Op::Eq, val_of(p), V::C(k ^ c), w); }
                        }
                        Node::Dec(d) => {
                            let mut r = V::T; let mut c2 = c;
                            for &t in d.iter().rev() { r = and(r, bin(Op::Eq, val_of(t), V::C(c2 % 10), w)); c2 /= 10; }
                            return if c2 != 0 { V::F } else { r };
                        }
                        Node::Concat(h, l) => {
                            let lw = width(l);
                            return and(bin(Op::Eq, val_of(h), V::C(c >> lw), width(h)), bin(Op::Eq, val_of(l), V::C(c & mask(lw)), lw));
                        }
                        _ => {}
                    }
                }
            }
            if let (Some(da), Some(db)) = (dec_terms(a), dec_terms(b)) {
                // digit-wise comparison, padded on the left
                let n = da.len().max(db.len());
                let g = |d: &Rc<[E]>, i: usize| if i + d.len() < n { V::C(0) } else { val_of(d[i + d.len() - n]) };
                let mut r = V::T;
                for i in 0..n { r = and(r, bin(Op::Eq, g(&da, i), g(&db, i), w)); }
                return r;
            }
            if let (V::S(x), V::S(y)) = (a, b) {
                if let (Node::Zext(p), Node::Zext(q)) = (&info(x).node, &info(y).node) {
                    if width(*p) == width(*q) { return bin(Op::Eq, val_of(*p), val_of(*q), width(*p)); }
                }
            }
        }
        Op::Ult => {
            if ha < lb { return V::T; }
            if la >= hb || a == b { return V::F; }
            if let Some(r) = dec_cmp(a, b, w) { return r; }
        }
        Op::Ule => {
            if ha <= lb || a == b { return V::T; }
            if la > hb { return V::F; }
            return not(bin(Op::Ult, b, a, w));
        }
        Op::Slt | Op::Sle => {
            let half = m >> 1;
            if ha <= half && hb <= half { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b, w); }
            if a == b { return V::C((op == Op::Sle) as u128); }
        }
        _ => {}
    }
    // 0/1-valued bytes: keep boolean structure
    if w > 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
        if let (Some(x), Some(y)) = (as_bool(a), as_bool(b)) { if a.is_sym() || b.is_sym() { return zext(bin(op, x, y, 1), 1, w); } }
    }
    if w > 1 && matches!(op, Op::Ult | Op::Slt | Op::Sle) {
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let (V::S(e), V::C(_)) = (x, y) {
                if let Node::Ite(cc, p, q) = info(e).node.clone() {
                    let f = |t: V| if sw { bin(op, y, t, w) } else { bin(op, t, y, w) };
                    let (tp, tq) = (f(val_of(p)), f(val_of(q)));
                    return bite(val_of(cc), tp, tq);
                }
            }
        }
    }
    // boolean connectives over the same variable are tables already; normalise commutative operands
    let (mut x, mut y) = (node_of(a, w), node_of(b, w));
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        let xc = matches!(info(x).node, Node::Const(_));
        let yc = matches!(info(y).node, Node::Const(_));
        if xc || (!yc && x > y) { std::mem::swap(&mut x, &mut y); }
    }
    let (lo, hi) = bin_range(op, (la, ha), (lb, hb), w);
    let vars = merge_vars(&info(x).vars, &info(y).vars);
    V::S(intern(Node::Bin(op, x, y), rw, lo, hi, vars))
}

/// a wider term that is 0 or 1, as a boolean
fn as_bool(v: V) -> Option<V> {
    match v {
        V::C(c) if c <= 1 => Some(v),
        V::C(_) => None,
        V::S(e) => match &info(e).node {
            Node::Zext(s) if width(*s) == 1 => Some(val_of(*s)),
            Node::Tab(x, t) if info(e).hi <= 1 => Some(tab(*x, t.to_vec(), 1)),
            _ => None,
        },
    }
}
fn dec_add(a: &[E], b: &[E], w: u8) -> Option<V> {
    // b fits into the trailing zero digits of a
    if b.len() > a.len() { return None; }
    let off = a.len() - b.len();
    let mut r = a.to_vec();
    for i in 0..b.len() {
        let za = matches!(info(a[off + i]).node, Node::Const(0));
        let zb = matches!(info(b[i]).node, Node::Const(0));
        if za { r[off + i] = b[i]; } else if !zb { return None; }
    }
    Some(mk_dec(r, w))
}

/// a < b where one side is a decimal and the other a constant: digit-wise
fn dec_cmp(a: V, b: V, w: u8) -> Option<V> {
    let digs = |c: u128, n: usize| -> Option<Vec<u128>> {
        let mut d = vec![]; let mut c = c;
        for _ in 0..n { d.push(c % 10); c /= 10; }
        if c != 0 { return None; }
        d.reverse(); Some(d)
    };
    match (a, b) {
        (_, V::C(c)) => {
            let d = dec_terms(a)?;
            let Some(k) = digs(c, d.len()) else { return Some(V::T) };
            let mut r = V::F;
            for i in (0..d.len()).rev() {
                let lt = bin(Op::Ult, val_of(d[i]), V::C(k[i]), w);
                let eq = bin(Op::Eq, val_of(d[i]), V::C(k[i]), w);
                r = or(lt, and(eq, r));
            }
            Some(r)
        }
        (V::C(c), _) => {
            let d = dec_terms(b)?;
            let Some(k) = digs(c, d.len()) else { return Some(V::F) };
            let mut r = V::F;
            for i in (0..d.len()).rev() {
                let lt = bin(Op::Ult, V::C(k[i]), val_of(d[i]), w);
                let eq = bin(Op::Eq, val_of(d[i]), V::C(k[i]), w);
                r = or(lt, and(eq, r));
            }
            Some(r)
        }
        _ => None,
    }
}

fn bin_range(op: Op, (la, ha): (u128, u128), (lb, hb): (u128, u128), w: u8) -> (u128, u128) {
    let m = mask(w);
    match op {
        Op::Add => match ha.checked_add(hb) { Some(h) if h <= m => (la + lb, h), _ => (0, m) },
        Op::Sub => if la >= hb { (la - hb, ha - lb) } else { (0, m) },
        Op::Mul => match ha.checked_mul(hb) { Some(h) if h <= m => (la * lb, h), _ => (0, m) },
        Op::UDiv => if lb > 0 { (la / hb, ha / lb) } else { (0, m) },
        Op::URem => if lb > 0 { (0, (hb - 1).min(ha)) } else { (0, m) },
        Op::And => (0, ha.min(hb)),
        Op::Or | Op::Xor => { let h = ha | hb; let bits = 128 - h.leading_zeros(); (if op == Op::Or { la.max(lb) } else { 0 }, if bits >= 128 { m } else { ((1u128 << bits) - 1).min(m) }) }
        Op::Shl => if lb == hb && lb < 128 && (ha << lb) >> lb == ha && (ha << lb) <= m { (la << lb, ha << lb) } else { (0, m) },
        Op::LShr => if lb == hb && lb < 128 { (la >> lb, ha >> lb) } else { (0, ha) },
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
        _ => (0, m),
    }
}

pub fn not(a: V) -> V { // boolean
    match a { V::C(c) => V::C(c ^ 1), V::S(_) => bin(Op::Xor, a, V::C(1), 1) }
}
pub fn and(a: V, b: V) -> V { bin(Op::And, a, b, 1) }
pub fn or(a: V, b: V) -> V { bin(Op::Or, a, b, 1) }
pub fn bite(c: V, a: V, b: V) -> V { // boolean ite
    if a == b { return a; }
    or(and(c, a), and(not(c), b))
}
pub fn ite(c: V, a: V, b: V, w: u8) -> V {
    match c { V::C(0) => return b, V::C(_) => return a, _ => {} }
    if a == b { return a; }
    if w == 1 { return bite(c, a, b); }
    if let (Some(x), Some(y)) = (as_bool(a), as_bool(b)) { return zext(bite(c, x, y), 1, w); }
    let V::S(ce) = c else { unreachable!() };
    if w <= 64 {
        if let Some((v, t)) = as_tab(ce) {
            let col = |x: V| -> Option<Vec<u64>> { match x { V::C(c) => Some(vec![c as u64; t.len()]), V::S(e) => match as_tab(e) { Some((v2, t2)) if v2 == v => Some(t2.to_vec()), _ => None } } };
            if let (Some(p), Some(q)) = (col(a), col(b)) {
                return tab(v, (0..t.len()).map(|i| if t[i] != 0 { p[i] } else { q[i] }).collect(), w);
            }
        }
    }
    let (x, y) = (node_of(a, w), node_of(b, w));
    let vars = merge_vars(&info(ce).vars, &merge_vars(&info(x).vars, &info(y).vars));
    let (lo, hi) = (info(x).lo.min(info(y).lo), info(x).hi.max(info(y).hi));
    V::S(intern(Node::Ite(ce, x, y), w, lo, hi, vars))
}
pub fn zext(a: V, from: u8, to: u8) -> V {
    if from == to { return a; }
    if from > to { return extract(a, from, 0, to); }
    match a {
        V::C(c) => V::C(c),
        V::S(e) => {
            if to <= 64 { if let Some((v, t)) = as_tab(e) { return tab(v, t.to_vec(), to); } }
            match info(e).node.clone() {
                Node::Zext(s) => return zext(val_of(s), width(s), to),
                Node::Dec(d) => return mk_dec(d.iter().map(|&t| node_of(zext(val_of(t), from, to), to)).collect(), to),
                Node::Ite(c, p, q) if from > 1 => return ite(val_of(c), zext(val_of(p), from, to), zext(val_of(q), from, to), to),
                _ => {}
            }
            let i = info(e);
            V::S(intern(Node::Zext(e), to, i.lo, i.hi, i.vars.clone()))
        }
    }
}
pub fn sext(a: V, from: u8, to: u8) -> V {
    if from == to { return a; }
    match a {
        V::C(c) => V::C(sx(c, from) as u128 & mask(to)),
        V::S(e) => {
            if info(e).hi <= mask(from) >> 1 { return zext(a, from, to); }
            if to <= 64 { if let Some((v, t)) = as_tab(e) { return tab(v, t.iter().map(|&x| (sx(x as u128, from) as u128 & mask(to)) as u64).collect(), to); } }
            let i = info(e);
            V::S(intern(Node::Sext(e), to, 0, mask(to), i.vars.clone()))
        }
    }
}
/// may two values of a wide scalar be joined without losing their decimal structure?
pub fn mixable(a: V, b: V, w: u8, zero: &dyn Fn(usize, E) -> bool) -> bool {
    if w < 64 { return true; }
    let (x, y) = match (a, b) { (V::C(_), V::C(_)) => return false, (V::S(e), V::C(_)) | (V::C(_), V::S(e)) if info(e).vars.len() <= 1 => return true, _ => (split_top(a), split_top(b)) };
    if let (V::S(e), V::S(f)) = (a, b) { if info(e).vars.len() <= 1 && info(e).vars == info(f).vars { return true; } }
    let (Some(x), Some(y)) = (x, y) else { return false };
    if x.1 != y.1 { return false; }
    match (as_dec(x.0, w), as_dec(y.0, w)) { (Some(p), Some(q)) => { let (l, s, which) = if p.len() >= q.len() { (&p, &q, 1) } else { (&q, &p, 0) }; let k = l.len() - s.len(); l[k..] == s[..] && l[..k].iter().all(|d| zero(which, *d)) } _ => false }
}
/// the low 56 bits and a constant above them
fn split_top(v: V) -> Option<(V, u128)> {
    match v {
        V::C(c) => Some((V::C(c & (mask(56))), c & !mask(56))),
        V::S(e) => match info(e).node.clone() {
            Node::Bin(Op::Or, p, q) => match (&info(p).node, &info(q).node) {
                (Node::Const(k), _) if info(q).hi < 1 << 56 && k & mask(56) == 0 => Some((val_of(q), *k)),
                (_, Node::Const(k)) if info(p).hi < 1 << 56 && k & mask(56) == 0 => Some((val_of(p), *k)),
                _ => None,
            },
            _ if info(e).hi < 1 << 56 => Some((v, 0)),
            _ => None,
        },
    }
}
/// the expression with the conditions that `known` decides resolved
pub fn resolve(e: E, known: &dyn Fn(E) -> Option<bool>) -> V {
    let w = width(e);
    let r = |e: E| resolve(e, known);
    match &info(e).node {
        Node::Ite(c, a, b) => match known(*c) { Some(true) => r(*a), Some(false) => r(*b), None => { let (x, y) = (r(*a), r(*b)); ite(val_of(*c), x, y, w) } },
        Node::Bin(op, a, b) if !is_cmp(*op) => { let (x, y) = (r(*a), r(*b)); bin(*op, x, y, w) }
        Node::Zext(a) => zext(r(*a), width(*a), w),
        Node::Extract(a, lo) => extract(r(*a), width(*a), *lo, w),
        _ => val_of(e),
    }
}
/// the condition of some undecided choice between values
pub fn first_ite(e: E) -> Option<E> {
    match &info(e).node {
        Node::Ite(c, _, _) => Some(*c),
        Node::Bin(op, a, b) if !is_cmp(*op) => first_ite(*a).or_else(|| first_ite(*b)),
        Node::Zext(a) | Node::Extract(a, _) => first_ite(*a),
        _ => None,
    }
}
/// one value out of several alternatives with mutually exclusive conditions.  Decimals that differ
/// only in leading digits known to be zero are one decimal.
pub fn join(alts: &[(V, V)], w: u8) -> V {
    if w == 64 && alts.len() > 1 {
        let parts: Option<Vec<((V, u128), V)>> = alts.iter().map(|(c, v)| split_top(*v).map(|s| (s, *c))).collect();
        if let Some(parts) = parts {
            let decs: Option<Vec<Vec<E>>> = parts.iter().map(|((d, _), _)| as_dec(*d, w)).collect();
            if let Some(decs) = decs {
                let long = (0..decs.len()).max_by_key(|&i| decs[i].len()).unwrap();
                let l = &decs[long];
                let ok = decs.iter().zip(&parts).all(|(d, (_, c))| {
                    let k = l.len() - d.len();
                    if l[k..] != d[..] { return false; }
                    let mut bad = V::F;
                    for x in &l[..k] { bad = or(bad, not(bin(Op::Eq, val_of(*x), V::C(0), w))); }
                    match and(*c, bad) { V::C(0) => true, V::C(_) => false, V::S(e) => crate::mdd::md().of(e) == Some(crate::mdd::F) }
                });
                if ok {
                    let mut k = V::C(parts[0].0.1);
                    for ((_, kk), c) in &parts[1..] { k = ite(*c, V::C(*kk), k, w); }
                    return bin(Op::Or, parts[long].0.0, k, w);
                }
            }
        }
    }
    let mut r = alts[0].1;
    for (c, v) in &alts[1..] { r = ite(*c, *v, r, w); }
    r
}
/// bits [lo, lo+w) of a value of width `from`
pub fn extract(a: V, from: u8, lo: u8, w: u8) -> V {
    if lo == 0 && w == from { return a; }
    match a {
        V::C(c) => V::C((c >> lo) & mask(w)),
        V::S(e) => {
            if w <= 64 { if let Some((v, t)) = as_tab(e) { return tab(v, t.iter().map(|&x| (((x as u128) >> lo) & mask(w)) as u64).collect(), w); } }
            let i = info(e);
            if lo as u32 >= 128 - i.hi.leading_zeros() { return V::C(0); }
            match i.node.clone() {
                Node::Zext(s) => {
                    let sw = width(s);
                    if lo >= sw { return V::C(0); }
                    if lo + w <= sw { return extract(val_of(s), sw, lo, w); }
                    if lo == 0 { return zext(val_of(s), sw, w); }
                }
                Node::Concat(h, l) => {
                    let lw = width(l);
                    if lo >= lw { return extract(val_of(h), width(h), lo - lw, w); }
                    if lo + w <= lw { return extract(val_of(l), lw, lo, w); }
                }
                Node::Dec(d) if lo == 0 && i.hi <= mask(w) =>
                    return mk_dec(d.iter().map(|&t| node_of(extract(val_of(t), from, 0, w), w)).collect(), w),
                Node::Extract(s, l2) => return extract(val_of(s), width(s), l2 + lo, w),
                Node::Ite(c, p, q) => return ite(val_of(c), extract(val_of(p), from, lo, w), extract(val_of(q), from, lo, w), w),
                Node::Bin(op @ (Op::And | Op::Or | Op::Xor), p, q) =>
                    return bin(op, extract(val_of(p), from, lo, w), extract(val_of(q), from, lo, w), w),
                _ => {}
            }
            let (l, h) = if lo == 0 && i.hi <= mask(w) { (i.lo, i.hi) } else { (0, mask(w)) };
            V::S(intern(Node::Extract(e, lo), w, l, h, i.vars.clone()))
        }
    }
}
pub fn concat(hi: V, hw: u8, lo: V, lw: u8) -> V {
    let w = hw + lw;
    match (hi, lo) {
        (V::C(h), V::C(l)) => V::C(h << lw | l),
        (V::C(0), _) => zext(lo, lw, w),
        _ => {
            let (x, y) = (node_of(hi, hw), node_of(lo, lw));
            // re-assembled extracts of one value
            if let (Node::Extract(s, a), Node::Extract(s2, b)) = (&info(x).node, &info(y).node) {
                if s == s2 && *a == *b + lw { return extract(val_of(*s), width(*s), *b, w); }
            }
            if w <= 64 {
                let vx = &info(x).vars; let vy = &info(y).vars;
                let v = merge_vars(vx, vy);
                if v.len() == 1 && matches!(info(x).node, Node::Const(_) | Node::Tab(..)) && matches!(info(y).node, Node::Const(_) | Node::Tab(..)) {
                    let n = ar().vars[v[0] as usize].dom.len();
                    return tab(v[0], (0..n).map(|i| tab_at(x, i) << lw | tab_at(y, i)).collect(), w);
                }
            }
            let (l, h) = ((info(x).lo << lw) | info(y).lo, (info(x).hi << lw) | info(y).hi);
            let vars = merge_vars(&info(x).vars, &info(y).vars);
            V::S(intern(Node::Concat(x, y), w, l, h, vars))
        }
    }
}
pub fn un_not(a: V, w: u8) -> V { bin(Op::Xor, a, V::C(mask(w)), w) }
pub fn neg(a: V, w: u8) -> V { bin(Op::Sub, V::C(0), a, w) }

/// concrete evaluation under an assignment of domain indices
pub fn eval(e: E, asg: &dyn Fn(u32) -> usize, memo: &mut HashMap<E, u128, Fx>) -> u128 {
    if let Some(&r) = memo.get(&e) { return r; }
    let i = info(e);
    let w = i.width;
    let r = match &i.node {
        Node::Const(c) => *c,
        Node::Tab(v, t) => t[asg(*v)] as u128,
        Node::Bin(op, a, b) => { let x = eval(*a, asg, memo); let y = eval(*b, asg, memo); cbin(*op, x, y, width(*a)) }
        Node::Ite(c, a, b) => if eval(*c, asg, memo) != 0 { eval(*a, asg, memo) } else { eval(*b, asg, memo) },
        Node::Zext(a) => eval(*a, asg, memo),
        Node::Sext(a) => sx(eval(*a, asg, memo), width(*a)) as u128 & mask(w),
        Node::Extract(a, l) => (eval(*a, asg, memo) >> l) & mask(w),
        Node::Concat(h, l) => { let x = eval(*h, asg, memo); let y = eval(*l, asg, memo); x << width(*l) | y }
        Node::Dec(d) => { let mut r = 0u128; for &t in d.iter() { r = r.wrapping_mul(10).wrapping_add(eval(t, asg, memo)); } r & mask(w) }
    };
    memo.insert(e, r);
    r
}

pub type Dom = [u64; 4];
pub fn dom_full(n: usize) -> Dom { let mut d = [0u64; 4]; for i in 0..n { d[i >> 6] |= 1 << (i & 63); } d }
pub fn dom_has(d: &Dom, i: usize) -> bool { d[i >> 6] >> (i & 63) & 1 == 1 }
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_iter(d: &Dom) -> DomIter { DomIter { d: *d, k: 0 } }
pub struct DomIter { d: Dom, k: usize }
impl Iterator for DomIter {
    type Item = usize;
    #[inline(always)]
    fn next(&mut self) -> Option<usize> {
        while self.k < 4 {
            let x = self.d[self.k];
            if x != 0 { let t = x.trailing_zeros() as usize; self.d[self.k] = x & (x - 1); return Some(self.k * 64 + t); }
            self.k += 1;
        }
        None
    }
}
pub fn dom_first(d: &Dom) -> Option<usize> { for k in 0..4 { if d[k] != 0 { return Some(k * 64 + d[k].trailing_zeros() as usize); } } None }

/// interval of a term under current variable domains (used to fold branches without the solver)
pub fn range_under(e: E, dom: &dyn Fn(u32) -> Dom, fixed: &HashMap<E, u128, Fx>, memo: &mut HashMap<E, (u128, u128), Fx>) -> (u128, u128) {
    if let Some(&c) = fixed.get(&e) { return (c, c); }
    if let Some(&r) = memo.get(&e) { return r; }
    let i = info(e);
    let w = i.width;
    let r = match &i.node {
        Node::Const(c) => (*c, *c),
        Node::Tab(v, t) => {
            let d = dom(*v);
            let (mut lo, mut hi) = (u128::MAX, 0u128);
            for k in dom_iter(&d) { if k < t.len() { let x = t[k] as u128; lo = lo.min(x); hi = hi.max(x); } }
            (lo, hi)
        }
        Node::Bin(op, a, b) => {
            let x = range_under(*a, dom, fixed, memo);
            let y = range_under(*b, dom, fixed, memo);
            let aw = width(*a);
            if x.0 == x.1 && y.0 == y.1 { let c = cbin(*op, x.0, y.0, aw); (c, c) } else {
                match op {
                    Op::Eq => if x.1 < y.0 || y.1 < x.0 { (0, 0) } else { (0, 1) },
                    Op::Ult => if x.1 < y.0 { (1, 1) } else if x.0 >= y.1 { (0, 0) } else { (0, 1) },
                    Op::Ule => if x.1 <= y.0 { (1, 1) } else if x.0 > y.1 { (0, 0) } else { (0, 1) },
                    Op::And if aw == 1 => (x.0 & y.0, x.1 & y.1),
                    Op::Or if aw == 1 => (x.0 | y.0, x.1 | y.1),
                    _ => { let r = bin_range(*op, x, y, aw); (r.0.max(i.lo), r.1.min(i.hi)) }
                }
            }
        }
        Node::Ite(c, a, b) => {
            let cc = range_under(*c, dom, fixed, memo);
            if cc == (1, 1) { range_under(*a, dom, fixed, memo) } else if cc == (0, 0) { range_under(*b, dom, fixed, memo) } else {
                let x = range_under(*a, dom, fixed, memo); let y = range_under(*b, dom, fixed, memo);
                (x.0.min(y.0), x.1.max(y.1))
            }
        }
        Node::Zext(a) => range_under(*a, dom, fixed, memo),
        Node::Sext(_) => (i.lo, i.hi),
        Node::Extract(a, l) => { let x = range_under(*a, dom, fixed, memo); if *l == 0 && x.1 <= mask(w) { x } else if x.0 == x.1 { let c = (x.0 >> l) & mask(w); (c, c) } else { (i.lo, i.hi) } }
        Node::Concat(h, l) => { let x = range_under(*h, dom, fixed, memo); let y = range_under(*l, dom, fixed, memo); let lw = width(*l); (x.0 << lw | y.0, x.1 << lw | y.1) }
        Node::Dec(d) => { let (mut lo, mut hi) = (0u128, 0u128); for &t in d.iter() { let x = range_under(t, dom, fixed, memo); lo = lo * 10 + x.0; hi = hi * 10 + x.1; } (lo, hi) }
    };
    memo.insert(e, r);
    r
}

/// short rendering for diagnostics
pub fn show(e: E, d: usize) -> String {
    let i = info(e);
    if d == 0 { return "…".into(); }
    match &i.node {
        Node::Const(c) => format!("{c}"),
        Node::Tab(v, t) => if t.len() <= 12 { format!("v{v}{t:?}") } else { format!("v{v}[..]") },
        Node::Bin(op, a, b) => format!("({op:?} {} {})", show(*a, d - 1), show(*b, d - 1)),
        Node::Ite(c, a, b) => format!("(ite {} {} {})", show(*c, d - 1), show(*a, d - 1), show(*b, d - 1)),
        Node::Zext(a) => format!("(zext {})", show(*a, d - 1)),
        Node::Sext(a) => format!("(sext {})", show(*a, d - 1)),
        Node::Extract(a, l) => format!("(extract {l} {})", show(*a, d - 1)),
        Node::Concat(a, b) => format!("(concat {} {})", show(*a, d - 1), show(*b, d - 1)),
        Node::Dec(t) => format!("dec({})", t.iter().map(|x| show(*x, d - 1)).collect::<Vec<_>>().join(",")),
    }
}

/// superset of the values of a term, when it is small
pub fn value_set(e: E, memo: &mut HashMap<E, Option<Rc<Vec<u128>>>, Fx>) -> Option<Rc<Vec<u128>>> {
    if let Some(r) = memo.get(&e) { return r.clone(); }
    let i = info(e);
    let w = i.width;
    let fin = |mut v: Vec<u128>| { v.sort(); v.dedup(); if v.len() <= 600 { Some(Rc::new(v)) } else { None } };
    let r = match &i.node {
        Node::Const(c) => Some(Rc::new(vec![*c])),
        Node::Tab(_, t) => fin(t.iter().map(|&x| x as u128).collect()),
        Node::Ite(_, a, b) => match (value_set(*a, memo), value_set(*b, memo)) { (Some(x), Some(y)) => fin(x.iter().chain(y.iter()).copied().collect()), _ => None },
        Node::Zext(a) => value_set(*a, memo),
        Node::Sext(a) => { let aw = width(*a); value_set(*a, memo).and_then(|x| fin(x.iter().map(|&v| sx(v, aw) as u128 & mask(w)).collect())) }
        Node::Extract(a, l) => value_set(*a, memo).and_then(|x| fin(x.iter().map(|&v| (v >> l) & mask(w)).collect())),
        Node::Concat(h, l) => { let lw = width(*l); match (value_set(*h, memo), value_set(*l, memo)) { (Some(x), Some(y)) if x.len() * y.len() <= 4096 => fin(x.iter().flat_map(|&p| y.iter().map(move |&q| p << lw | q)).collect()), _ => None } }
        Node::Bin(op, a, b) => {
            if w == 1 { Some(Rc::new(vec![0, 1])) } else {
                let aw = width(*a);
                match (value_set(*a, memo), value_set(*b, memo)) { (Some(x), Some(y)) if x.len() * y.len() <= 4096 => fin(x.iter().flat_map(|&p| y.iter().map(move |&q| cbin(*op, p, q, aw))).collect()), _ => None }
            }
        }
        Node::Dec(_) => None,
    };
    memo.insert(e, r.clone());
    r
}

/// what an expression is a displacement of
pub fn stem(e: E) -> E {
    if let Node::Bin(Op::Add | Op::Sub, a, b) = &info(e).node {
        if let Node::Const(_) = info(*b).node { return stem(*a); }
        if let Node::Const(_) = info(*a).node { return stem(*b); }
    }
    e
}
pub fn mentions(e: E, x: E, memo: &mut HashMap<E, bool, Fx>) -> bool {
    if e == x { return true; }
    if let Some(&b) = memo.get(&e) { return b; }
    let mut m = |a: E| mentions(a, x, memo);
    let r = match &info(e).node {
        Node::Const(_) | Node::Tab(..) => false,
        Node::Bin(_, a, b) | Node::Concat(a, b) => m(*a) || m(*b),
        Node::Ite(c, a, b) => m(*c) || m(*a) || m(*b),
        Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => m(*a),
        Node::Dec(d) => d.iter().any(|t| m(*t)),
    };
    memo.insert(e, r);
    r
}
