//! z3 through its C API (incremental solver, one per process).
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::ffi::CString;

type P = *mut c_void;
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Solver {
    c: P,
    s: P,
    vars: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    pub cache: HashMap<Vec<u64>, Ans>,
    pub unknown: u64,
    timeout: u32,
    mterm: HashMap<u32, P>,
}
#[derive(Clone, PartialEq)]
pub enum Ans { Sat(Vec<(u32, usize)>), Unsat, Unknown }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("20000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // legacy ref-counting: terms live as long as the context
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, vars: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: Default::default(), cache: HashMap::new(), unknown: 0, timeout: 20000, mterm: HashMap::new() }
        }
    }
    /// forget every term and start with a new context
    pub fn reset(&mut self) {
        let n = Solver::new();
        unsafe { Z3_del_context(self.c); }
        *self = Solver { queries: self.queries, sat: self.sat, unsat: self.unsat, time: self.time, unknown: self.unknown, ..n };
    }
    fn var(&mut self, v: u32) -> P {
        if let Some(&p) = self.vars.get(&v) { return p; }
        unsafe {
            let n = CString::new(format!("v{v}")).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
            Z3_inc_ref(self.c, p);
            self.vars.insert(v, p);
            p
        }
    }
    fn k(&mut self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint)) }
            else {
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, (w - 64) as c_uint));
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn set_term(&mut self, x: P, idxs: &[usize]) -> P {
        // disjunction of index ranges
        let mut ors: Vec<P> = vec![];
        let mut i = 0;
        unsafe {
            while i < idxs.len() {
                let mut j = i;
                while j + 1 < idxs.len() && idxs[j + 1] == idxs[j] + 1 { j += 1; }
                let (a, b) = (idxs[i] as u128, idxs[j] as u128);
                let ka = self.k(a, 8); let kb = self.k(b, 8);
                if a == b { ors.push(Z3_mk_eq(self.c, x, ka)); }
                else {
                    let t = [Z3_mk_bvule(self.c, ka, x), Z3_mk_bvule(self.c, x, kb)];
                    ors.push(Z3_mk_and(self.c, 2, t.as_ptr()));
                }
                i = j + 1;
            }
            match ors.len() { 0 => Z3_mk_false(self.c), 1 => ors[0], n => Z3_mk_or(self.c, n as c_uint, ors.as_ptr()) }
        }
    }
    /// term for e; width-1 nodes become Bool
    fn term(&mut self, e: E) -> P {
        if let Some(p) = ar().z3[e as usize] { return p as P; }
        let i = info(e);
        let w = i.width;
        let c = self.c;
        let p = unsafe {
            match &i.node {
                Node::Const(v) => if w == 1 { if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.k(*v, w) },
                Node::Tab(v, t) => {
                    let x = self.var(*v);
                    if w == 1 {
                        let yes: Vec<usize> = (0..t.len()).filter(|&k| t[k] == 1).collect();
                        self.set_term(x, &yes)
                    } else if (0..t.len()).all(|k| t[k] == t[0].wrapping_add(k as u64)) && (t[0] as u128 + t.len() as u128) <= mask(w) {
                        let z = if w > 8 { Z3_mk_zero_ext(c, (w - 8) as c_uint, x) } else if w < 8 { Z3_mk_extract(c, w as c_uint - 1, 0, x) } else { x };
                        if t[0] == 0 { z } else { let k = self.k(t[0] as u128, w); Z3_mk_bvadd(c, z, k) }
                    } else {
                        // group by value
                        let mut g: Vec<(u64, Vec<usize>)> = vec![];
                        for (k, &val) in t.iter().enumerate() {
                            if let Some(q) = g.iter_mut().find(|q| q.0 == val) { q.1.push(k) } else { g.push((val, vec![k])) }
                        }
                        g.sort_by_key(|q| q.1.len());
                        let last = g.pop().unwrap();
                        let mut r = self.k(last.0 as u128, w);
                        for (val, idx) in g { let cnd = self.set_term(x, &idx); let kv = self.k(val as u128, w); r = Z3_mk_ite(c, cnd, kv, r); }
                        r
                    }
                }
                Node::Bin(op, a, b) => {
                    let aw = width(*a);
                    let x = self.term(*a); let y = self.term(*b);
                    if aw == 1 {
                        let v = [x, y];
                        match op {
                            Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            Op::Xor => if matches!(info(*b).node, Node::Const(1)) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) },
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => { let t = [Z3_mk_not(c, x), y]; Z3_mk_and(c, 2, t.as_ptr()) }
                            _ => panic!("bool op {op:?}"),
                        }
                    } else {
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Eq => Z3_mk_eq(c, x, y), Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                Node::Ite(a, b, d) => { let (x, y, z) = (self.term(*a), self.term(*b), self.term(*d)); Z3_mk_ite(c, x, y, z) }
                Node::Zext(a) => { let aw = width(*a); let x = self.bvterm(*a); Z3_mk_zero_ext(c, (w - aw) as c_uint, x) }
                Node::Sext(a) => { let aw = width(*a); let x = self.bvterm(*a); Z3_mk_sign_ext(c, (w - aw) as c_uint, x) }
                Node::Extract(a, l) => {
                    let x = self.bvterm(*a);
                    let r = Z3_mk_extract(c, (*l + w - 1) as c_uint, *l as c_uint, x);
                    if w == 1 { let one = self.k(1, 1); Z3_mk_eq(c, r, one) } else { r }
                }
                Node::Concat(h, l) => { let x = self.bvterm(*h); let y = self.bvterm(*l); Z3_mk_concat(c, x, y) }
                Node::Dec(d) => {
                    let mut r: Option<P> = None;
                    let ten = self.k(10, w);
                    for &t in d.iter() {
                        let x = self.term(t);
                        r = Some(match r { None => x, Some(r) => Z3_mk_bvadd(c, Z3_mk_bvmul(c, r, ten), x) });
                    }
                    r.unwrap()
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        ar().z3[e as usize] = Some(p as usize);
        p
    }
    fn bvterm(&mut self, e: E) -> P {
        let t = self.term(e);
        if width(e) == 1 { unsafe { let a = self.k(1, 1); let b = self.k(0, 1); Z3_mk_ite(self.c, t, a, b) } } else { t }
    }
    /// a decision diagram as a shared Boolean term
    fn mdd_term(&mut self, m: crate::mdd::M) -> P {
        if let Some(&p) = self.mterm.get(&m) { return p; }
        let c = self.c;
        let p = match m {
            crate::mdd::F => unsafe { Z3_mk_false(c) },
            crate::mdd::T => unsafe { Z3_mk_true(c) },
            _ => {
                let (v, es) = crate::mdd::md().node(m);
                let n = ar().vars[v as usize].dom.len();
                let x = self.var(v);
                let mut ors: Vec<P> = vec![];
                for (d, k) in es.iter() {
                    if *k == crate::mdd::F { continue; }
                    let idx: Vec<usize> = dom_iter(d).filter(|&i| i < n).collect();
                    let a = [self.set_term(x, &idx), self.mdd_term(*k)];
                    ors.push(unsafe { Z3_mk_and(c, 2, a.as_ptr()) });
                }
                unsafe { Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()) }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.mterm.insert(m, p);
        p
    }
    pub fn forget_diagrams(&mut self) { self.mterm.clear(); self.cache.clear(); }
    fn set_timeout(&mut self, ms: u32) {
        if self.timeout == ms { return; }
        self.timeout = ms;
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms as c_uint);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    /// Do the paths, each a conjunction of terms, cover every assignment?
    pub fn closed(&mut self, paths: &[Vec<E>], doms: &[(u32, usize)], timeout: u32) -> Ans {
        let t0 = std::time::Instant::now();
        self.set_timeout(timeout);
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, n) in doms {
                let x = self.var(*v);
                let idx: Vec<usize> = (0..*n).collect();
                let t = self.set_term(x, &idx);
                Z3_solver_assert(self.c, self.s, t);
            }
            for p in paths {
                let a: Vec<P> = p.iter().map(|&e| self.term(e)).collect();
                let t = Z3_mk_not(self.c, Z3_mk_and(self.c, a.len() as c_uint, a.as_ptr()));
                Z3_solver_assert(self.c, self.s, t);
            }
            let r = match Z3_solver_check(self.c, self.s) { 1 => Ans::Sat(vec![]), -1 => Ans::Unsat, _ => Ans::Unknown };
            Z3_solver_pop(self.c, self.s, 1);
            self.time += t0.elapsed();
            r
        }
    }
    /// Is the conjunction (of the terms and the diagram) satisfiable with each variable inside its domain?
    pub fn check(&mut self, cs: &[E], m: crate::mdd::M, doms: &[(u32, Dom)], timeout: u32) -> Ans {
        let mut key: Vec<u64> = cs.iter().map(|&c| c as u64).collect();
        key.sort(); key.dedup();
        key.push(u64::MAX);
        key.push(m as u64);
        for (v, d) in doms { key.push(*v as u64); key.extend_from_slice(d); }
        if let Some(r) = self.cache.get(&key) { return r.clone(); }
        let t0 = std::time::Instant::now();
        self.set_timeout(timeout);
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                let x = self.var(*v);
                let idx: Vec<usize> = dom_iter(d).collect();
                let t = self.set_term(x, &idx);
                Z3_solver_assert(self.c, self.s, t);
            }
            if m != crate::mdd::T { let t = self.mdd_term(m); Z3_solver_assert(self.c, self.s, t); }
            for &e in cs { let t = self.term(e); Z3_solver_assert(self.c, self.s, t); }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut val: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        assert!(Z3_model_eval(self.c, m, x, true, &mut val));
                        assert!(Z3_get_numeral_uint64(self.c, val, &mut u));
                        out.push((*v, u as usize));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Ans::Sat(out)
                }
                -1 => { self.unsat += 1; Ans::Unsat }
                _ => { self.unknown += 1; Ans::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.queries += 1;
        self.time += t0.elapsed();
        if self.cache.len() > 500_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
}
