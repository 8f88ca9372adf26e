//! Models: harness intrinsics, compiler intrinsics, the allocator, panics and a few leaf functions.
use crate::compile::*;
use crate::expr::*;
use crate::interp::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::collections::HashMap;

pub enum Flow { Ret, Pushed, Body }
pub struct Hx<'a> { pub f: u32, pub args: &'a [Arg], pub dest: RDest, pub target: Option<u32>, pub dsize: usize }
pub type Hook = fn(&mut Interp, &mut State, &Hx) -> R<Flow>;

impl<'a> Hx<'a> {
    pub fn s(&self, st: &State, it: &Interp, i: usize) -> R<V> {
        match &self.args[i] { Arg::S(v) => Ok(*v), Arg::P(a, _) => Ok(*a), Arg::M(a, n) if *n <= 16 => it.load(st, *a, *n as usize), _ => Err(Trap::Unsup(format!("hook argument {i} of {}", self.name()))) }
    }
    pub fn n(&self, st: &State, it: &Interp, i: usize) -> R<u64> { let v = self.s(st, it, i)?; Ok(st.conc(v)? as u64) }
    pub fn p(&self, st: &State, it: &Interp, i: usize) -> R<(V, V)> {
        match &self.args[i] { Arg::P(a, b) => Ok((*a, *b)), Arg::M(s, 16) => Ok((it.load(st, *s, 8)?, it.load(st, *s + 8, 8)?)), _ => Err(Trap::Unsup(format!("wide hook argument {i} of {}", self.name()))) }
    }
    /// concrete (address, length) of a slice/str argument
    pub fn slice(&self, st: &State, it: &Interp, i: usize) -> R<(u64, u64)> { let (a, b) = self.p(st, it, i)?; Ok((st.conc(a)? as u64, st.conc(b)? as u64)) }
    pub fn name(&self) -> &'static str { &cp().fns[self.f as usize].name }
    pub fn ty(&self, i: usize) -> Ty { cp().fns[self.f as usize].gen_tys[i] }
}

pub fn lookup(inst: &Instance, name: &str, path: &str) -> Option<Hook> {
    if inst.kind == InstanceKind::Intrinsic {
        let n = inst.intrinsic_name().unwrap();
        return Some(intrinsic(&n));
    }
    if let Some(h) = crate::re::lookup(name, path) { return Some(h); }
    if inst.kind == InstanceKind::Shim { return None; }
    let last = path.rsplit("::").next().unwrap_or(path);
    if path.starts_with("harness::sym::") || path.starts_with("sym::") {
        match last {
            "split" => return Some(h_split),
            "choose" => return Some(h_choose),
            "pick" => return Some(h_pick),
            "assume" => return Some(h_assume),
            "check" => return Some(h_check),
            "mark" => return Some(h_mark),
            "is_native" => return Some(|it, st, h| { it.put_s(st, &h.dest, V::C(0), 1)?; Ok(Flow::Ret) }),
            "known" => return Some(h_known),
            _ => {}
        }
    }
    match last {
        "__rust_alloc" | "__rust_alloc_zeroed" => return Some(|it, st, h| { let n = h.n(st, it, 0)?; let a = it.malloc(st, n as usize); it.put_s(st, &h.dest, V::C(a as u128), 8)?; Ok(Flow::Ret) }),
        "__rust_dealloc" => return Some(|it, st, h| { let a = h.n(st, it, 0)?; it.mfree(st, a); Ok(Flow::Ret) }),
        "__rust_realloc" => return Some(|it, st, h| {
            let (a, old, new) = (h.n(st, it, 0)?, h.n(st, it, 1)?, h.n(st, it, 3)?);
            let b = it.malloc(st, new as usize);
            it.copy(st, a, b, old.min(new) as usize)?;
            it.mfree(st, a);
            it.put_s(st, &h.dest, V::C(b as u128), 8)?;
            Ok(Flow::Ret)
        }),
        "miri_promise_symbolic_alignment" | "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => return Some(|_, _, _| Ok(Flow::Ret)),
        _ => {}
    }
    let panics = |m: &str| path.strip_prefix("std::rt::").or(path.strip_prefix("core::panicking::")).or(path.strip_prefix("std::panicking::")).or(path.strip_prefix("core::panic::")).or(path.strip_prefix("std::panic::")).is_some_and(|f| f.starts_with(m) && !f.contains("::"));
    if panics("panic_") || panics("begin_panic") || path.ends_with("::panic_fmt") || path.ends_with("::panic_impl") || path.starts_with("core::panicking::") || path.starts_with("std::panicking::begin_panic") || path.starts_with("std::panicking::panic_")
        || path == "std::process::abort" || path == "core::intrinsics::abort" || path == "std::rt::begin_panic" || path == "alloc::alloc::handle_alloc_error" {
        return Some(h_panic);
    }
    if std::env::var("MIRSYM_DEBUG_PATHS").is_ok() { eprintln!("PATH {path}  NAME {name}"); }
    if path == "std::sys::random::hashmap_random_keys" || last == "hashmap_random_keys" {
        return Some(|it, st, h| { if let RDest::Mem(m) = h.dest { it.store(st, m, 8, V::C(1))?; it.store(st, m + 8, 8, V::C(2))?; } Ok(Flow::Ret) });
    }
    if path.starts_with("core::unicode::unicode_data::") && last == "lookup" { return unicode(path); }
    if path == "core::fmt::num::imp::<impl u64>::_fmt" || path == "core::fmt::num::<impl u64>::_fmt" || (path.contains("fmt::num") && last == "_fmt") { return Some(h_fmt_int); }
    if name == "core::str::traits::<impl std::cmp::PartialEq for str>::eq" { return Some(h_str_eq); }
    if name.starts_with("<&str as nom::traits::FindToken<char>>::find_token") && !name.contains("closure") { return Some(h_find_token); }
    if name == "<fnv::FnvHasher as std::hash::Hasher>::write" { return Some(h_fnv); }
    if name.starts_with("hashbrown::map::HashMap::<char, char, ") && name.ends_with("::get::<char>") { return Some(h_char_map); }
    if path.starts_with("memchr::memchr::") { match last { "memchr_raw" => return Some(|it, st, h| h_memchr_raw(it, st, h, 1, false)), "memchr2_raw" => return Some(|it, st, h| h_memchr_raw(it, st, h, 2, false)),
        "memchr3_raw" => return Some(|it, st, h| h_memchr_raw(it, st, h, 3, false)), "memrchr_raw" => return Some(|it, st, h| h_memchr_raw(it, st, h, 1, true)), _ => {} } }
    if path.contains("slice::memchr") { match last { "memchr_aligned" | "memchr" => return Some(|it, st, h| h_memchr(it, st, h, false)), "memrchr" => return Some(|it, st, h| h_memchr(it, st, h, true)), _ => {} } }
    if path.contains("fmt::num") && last == "fmt" && name.contains("Display for u") { return None; }
    None
}

fn unicode(path: &str) -> Option<Hook> {
    fn lift(it: &mut Interp, st: &mut State, h: &Hx, f: fn(char) -> bool) -> R<Flow> {
        let v = h.s(st, it, 0)?;
        let r = match v {
            V::C(c) => V::C(char::from_u32(c as u32).map_or(false, f) as u128),
            V::S(e) => match as_tab(e) {
                Some((var, t)) => tab(var, t.iter().map(|&x| char::from_u32(x as u32).map_or(false, f) as u64).collect(), 8),
                None => return Err(Trap::Conc(e)),
            },
        };
        it.put_s(st, &h.dest, r, 1)?;
        Ok(Flow::Ret)
    }
    let seg = path.trim_end_matches("::lookup").rsplit("::").next().unwrap();
    Some(match seg {
        "alphabetic" => |it, st, h| lift(it, st, h, |c| c.is_alphabetic()),
        "n" => |it, st, h| lift(it, st, h, |c| c.is_numeric()),
        "white_space" => |it, st, h| lift(it, st, h, |c| c.is_whitespace()),
        "lowercase" => |it, st, h| lift(it, st, h, |c| c.is_lowercase()),
        "uppercase" => |it, st, h| lift(it, st, h, |c| c.is_uppercase()),
        _ => return None,
    })
}

fn h_split(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let n = h.n(st, it, 0)? as u32;
    if st.jobs < it.job_prefix.len() {
        let c = it.job_prefix[st.jobs];
        st.jobs += 1;
        st.picks.push(Pick::Choice(c));
        it.put_s(st, &h.dest, V::C(c as u128), 4)?;
        return Ok(Flow::Ret);
    }
    if it.split_seen.is_none() && it.init_mode { it.split_seen = Some(n); return Err(Trap::Infeasible); }
    h_choose(it, st, h)
}
fn h_choose(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let n = h.n(st, it, 0)?;
    if it.init_mode { return Err(Trap::Infeasible); }
    match st.choice.take() {
        None => Err(Trap::Split(vec![V::T; n as usize])),
        Some(i) => { st.picks.push(Pick::Choice(i as u32)); it.put_s(st, &h.dest, V::C(i as u128), 4)?; Ok(Flow::Ret) }
    }
}
fn h_pick(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let (a, n) = h.slice(st, it, 0)?;
    // job-level splits come before the first symbolic input
    if it.init_mode { return Err(Trap::Infeasible); }
    if n == 0 || n > 256 { return Err(Trap::Unsup(format!("pick from {n} values"))); }
    let mut d = vec![];
    for i in 0..n { let v = it.load(st, a + i * 4, 4)?; d.push(st.conc(v)? as u64); }
    let dom: std::rc::Rc<[u64]> = d.clone().into();
    let var = new_var(st.picks.len() as u32, dom);
    st.picks.push(Pick::Var(var));
    st.vpos.insert(var, st.doms.len());
    st.doms.push((var, dom_full(d.len())));
    let v = tab(var, d, 32);
    it.put_s(st, &h.dest, v, 4)?;
    Ok(Flow::Ret)
}
fn h_assume(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let v = h.s(st, it, 0)?;
    let c = bin(Op::Eq, v, V::C(1), 8);
    // the inputs that are left out end here
    let mut out = st.clone();
    if it.feasible(st, not(c)) && it.assume(&mut out, not(c)) { it.ends.push((out.log, out.mdd, out.exact)); }
    if !it.feasible(st, c) || !it.assume(st, c) { return Err(Trap::Infeasible); }
    Ok(Flow::Ret)
}
fn h_check(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let v = h.s(st, it, 0)?;
    let (a, n) = h.slice(st, it, 1)?;
    let c = bin(Op::Eq, v, V::C(1), 8);
    if c == V::T { it.folded_checks += 1; return Ok(Flow::Ret); }
    let bad = not(c);
    it.solver_checks += 1;
    let extra: Vec<E> = match bad { V::C(_) => vec![], V::S(e) => vec![e] };
    let und = it.undecided;
    let inp = it.inputs(st, &extra);
    if it.undecided > und { return Err(Trap::Unsup("the solver gave no verdict on a check".into())); }
    if let Some(inp) = inp {
        let msg = it.cstr(st, a, n as usize)?;
        it.found(Violation { msg: format!("check failed: {msg}"), inputs: inp, stack: st.stack(), marks: st.marks.clone() });
        if it.violations.len() > 200 { return Err(Trap::Unsup("too many violations".into())); }
    }
    if c == V::F || !it.assume(st, c) { return Err(Trap::Infeasible); }
    Ok(Flow::Ret)
}
fn h_mark(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let (a, n) = h.slice(st, it, 0)?;
    let m = it.cstr(st, a, n as usize)?;
    st.marks.push(m);
    Ok(Flow::Ret)
}
/// sym::known(b): forks on b and returns a concrete bool
fn h_known(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let v = h.s(st, it, 0)?;
    let c = st.conc(v)?;
    it.put_s(st, &h.dest, V::C(c), 1)?;
    Ok(Flow::Ret)
}
fn h_panic(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let mut msg = h.name().to_string();
    if let Some(Arg::P(..)) = h.args.get(0) {
        if let Ok((a, n)) = h.slice(st, it, 0) { if n < 500 { if let Ok(s) = it.cstr(st, a, n as usize) { msg = format!("{msg}: {s}"); } } }
    }
    Err(Trap::Panic(msg))
}

fn h_str_eq(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let (a, b) = (h.slice(st, it, 0)?, h.slice(st, it, 1)?);
    let r = if a.1 != b.1 { V::F } else {
        let x = it.bytes(st, a.0, a.1 as usize)?;
        let y = it.bytes(st, b.0, b.1 as usize)?;
        let mut r = V::T;
        for i in 0..x.len() { r = and(r, bin(Op::Eq, x[i], y[i], 8)); if r == V::F { break; } }
        r
    };
    it.put_s(st, &h.dest, zext(r, 1, 8), 1)?;
    Ok(Flow::Ret)
}
/// `self.chars().any(|c| c == token)` for a constant text
fn h_find_token(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let r = h.n(st, it, 0)?;
    let (a, n) = (it.load(st, r, 8)?, it.load(st, r + 8, 8)?);
    let (a, n) = (st.conc(a)? as u64, st.conc(n)? as u64);
    let mut text = vec![];
    for b in it.bytes(st, a, n as usize)? { match b { V::C(c) => text.push(c as u8), _ => return Ok(Flow::Body) } }
    let Ok(text) = std::str::from_utf8(&text) else { return Ok(Flow::Body) };
    let x = h.s(st, it, 1)?;
    let r = match x {
        V::C(c) => V::C(text.chars().any(|t| t as u128 == c) as u128),
        V::S(e) => match as_tab(e) {
            Some((var, t)) => tab(var, t.iter().map(|&x| text.chars().any(|c| c as u64 == x) as u64).collect(), 8),
            None => { let mut r = V::F; for c in text.chars() { r = or(r, bin(Op::Eq, x, V::C(c as u128), 32)); } zext(r, 1, 8) }
        },
    };
    it.put_s(st, &h.dest, r, 1)?;
    Ok(Flow::Ret)
}
fn h_fnv(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let s = h.n(st, it, 0)?;
    let (a, n) = h.slice(st, it, 1)?;
    // a symbolic calling code: one case for each of its values
    if n == 2 { if let V::S(e) = it.load(st, a, 2)? { return Err(Trap::Conc(e)); } }
    let mut v = it.load(st, s, 8)?;
    for b in it.bytes(st, a, n as usize)? {
        v = bin(Op::Mul, bin(Op::Xor, v, zext(b, 8, 64), 64), V::C(0x100000001b3), 64);
    }
    it.store(st, s, 8, v)?;
    Ok(Flow::Ret)
}
/// `map.get(&key)` of a `HashMap<char, char>` with a symbolic key: the entries are read from the
/// table the program built, the result points to the value as a function of the key
fn h_char_map(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let k = h.n(st, it, 1)?;
    let key = it.load(st, k, 4)?;
    let V::S(e) = key else { return Ok(Flow::Body) };
    if st.known(key).is_some() { return Ok(Flow::Body); }
    let Some((var, t)) = as_tab(e) else { return Err(Trap::Conc(e)) };
    let m = h.n(st, it, 0)?;
    let mut w = [0u64; 4];
    for (i, w) in w.iter_mut().enumerate() { let v = it.load(st, m + 8 * i as u64, 8)?; *w = st.conc(v)? as u64; }
    let [ctrl, mask, _, items] = w;
    if !(mask + 1).is_power_of_two() || mask > 1 << 16 { return Err(Trap::Conc(e)); }
    let mut map = HashMap::new();
    for i in 0..=mask {
        let c = it.load(st, ctrl + i, 1)?;
        if st.conc(c)? & 0x80 != 0 { continue; }
        let a = ctrl - 8 * (i + 1);
        let (kk, v) = (it.load(st, a, 4)?, it.load(st, a + 4, 4)?);
        map.insert(st.conc(kk)? as u64, st.conc(v)? as u64);
    }
    if map.len() as u64 != items { return Err(Trap::Conc(e)); }
    let some = tab(var, t.iter().map(|x| map.contains_key(x) as u64).collect(), 1);
    let choice = st.choice.take();
    let k = match st.known(some) { Some(c) => c == 0, None => match some {
        V::C(c) => c == 0,
        _ => match choice { Some(k) => k == 1, None => return Err(Trap::Split(vec![some, not(some)])) },
    } };
    let mut r = 0;
    if !k {
        // values of the key the path excludes do not matter
        let any = *map.values().next().unwrap();
        let v = tab(var, t.iter().map(|x| map.get(x).copied().unwrap_or(any)).collect(), 32);
        r = it.malloc(st, 4);
        it.store(st, r, 4, v)?;
    }
    it.put_s(st, &h.dest, V::C(r as u128), 8)?;
    Ok(Flow::Ret)
}
/// `memchr(x, text) -> Option<usize>`: the place of the first (last) occurrence of a byte
fn h_memchr(it: &mut Interp, st: &mut State, h: &Hx, rev: bool) -> R<Flow> {
    let x = h.s(st, it, 0)?;
    let (a, n) = h.slice(st, it, 1)?;
    find_byte(it, st, h, &[x], a, n, 0, rev)
}
/// the same of the memchr crate: `memchrN_raw(x.., start, end) -> Option<*const u8>`
fn h_memchr_raw(it: &mut Interp, st: &mut State, h: &Hx, k: usize, rev: bool) -> R<Flow> {
    let mut xs = vec![];
    for i in 0..k { xs.push(h.s(st, it, i)?); }
    let (a, b) = (h.n(st, it, k)?, h.n(st, it, k + 1)?);
    find_byte(it, st, h, &xs, a, b.saturating_sub(a), a, rev)
}
/// writes `Some(base + place)` or `None`
fn find_byte(it: &mut Interp, st: &mut State, h: &Hx, xs: &[V], a: u64, n: u64, base: u64, rev: bool) -> R<Flow> {
    let RDest::Mem(m) = h.dest else { return Ok(Flow::Body) };
    let text = it.bytes(st, a, n as usize)?;
    let order: Vec<usize> = if rev { (0..text.len()).rev().collect() } else { (0..text.len()).collect() };
    // choices are numbered by place, so that they mean the same when the call is executed again
    let mut places = vec![V::F; text.len() + 1];
    let mut none = V::T;
    for i in order {
        let mut q = V::F;
        for &x in xs { q = or(q, bin(Op::Eq, text[i], x, 8)); }
        let q = st.known(q).map(V::C).unwrap_or(q);
        if q == V::F { continue; }
        places[i] = and(none, q);
        none = and(none, not(q));
        if q == V::T { none = V::F; break; }
    }
    places[text.len()] = none;
    let mut some = places.iter().enumerate().filter(|p| *p.1 != V::F);
    let k = match (st.choice.take(), some.next(), some.next()) { (Some(k), _, _) => k, (None, Some((k, _)), None) => k, _ => return Err(Trap::Split(places)) };
    it.store(st, m, 8, V::C((k < text.len()) as u128))?;
    if k < text.len() { it.store(st, m + 8, 8, V::C(k as u128 + base as u128))?; }
    Ok(Flow::Ret)
}
/// decimal rendering of an integer into the end of a buffer: `_fmt(self, buf: &mut [MaybeUninit<u8>]) -> &str`
fn h_fmt_int(it: &mut Interp, st: &mut State, h: &Hx) -> R<Flow> {
    let v = h.s(st, it, 0)?;
    let V::S(e) = v else { return Ok(Flow::Body) };
    let w = width(e);
    if let (Some(c), Arg::P(..)) = (st.known(v), &h.args[1]) {
        let (buf, len) = h.slice(st, it, 1)?;
        let t = c.to_string();
        let n = t.len() as u64;
        for (i, b) in t.bytes().enumerate() { it.store(st, buf + len - n + i as u64, 1, V::C(b as u128))?; }
        it.put_p(st, &h.dest, V::C((buf + len - n) as u128), V::C(n as u128))?;
        return Ok(Flow::Ret);
    }
    // a masked value that fits under the mask on this path
    if let Node::Bin(Op::And, a, b) = info(e).node.clone() {
        for (x, k) in [(a, b), (b, a)] {
            if let Node::Const(k) = info(k).node { if k & (k + 1) == 0 && dec_terms(val_of(x)).is_some() {
                let fits = bin(Op::Ule, val_of(x), V::C(k), w);
                if !it.feasible(st, not(fits)) { return fmt_terms(it, st, h, val_of(x)); }
                if let V::S(f) = fits { if st.known(fits).is_none() { return Err(Trap::Conc(f)); } }
            } }
        }
    }
    fmt_terms(it, st, h, v)
}
fn fmt_terms(it: &mut Interp, st: &mut State, h: &Hx, v: V) -> R<Flow> {
    let V::S(e) = v else { return h_fmt_int(it, st, h) };
    let w = width(e);
    let v = if dec_terms(v).is_none() { resolve(e, &|c| st.known(V::S(c)).map(|x| x == 1)) } else { v };
    let V::S(e) = v else { if let (V::C(c), V::S(e)) = (v, h.s(st, it, 0)?) { st.fixed.insert(e, c); } return h_fmt_int(it, st, h) };
    let terms: Vec<E> = match dec_terms(v) {
        Some(d) => d.to_vec(),
        None => if let Some(c) = first_ite(e) { return Err(Trap::Conc(c)) } else if info(e).hi <= 9 { vec![e] } else { if it.verbose { eprintln!("fmt of {}", show(e, 6)); } return Err(Trap::Conc(e)) },
    };
    let (buf, len) = match &h.args[1] { Arg::P(..) => h.slice(st, it, 1)?, Arg::S(a) => { let _ = a; return Ok(Flow::Body) } _ => return Err(Trap::Unsup("int fmt buffer".into())) };
    // fork on the number of digits
    let Some(n) = st.choice.take() else {
        let mut conds = vec![];
        let mut zero = V::T;
        for (i, &t) in terms.iter().enumerate() {
            let z = bin(Op::Eq, val_of(t), V::C(0), w);
            if i + 1 == terms.len() { conds.push(zero); } else { conds.push(and(zero, not(z))); zero = and(zero, z); }
        }
        conds.push(V::F);
        conds.reverse();
        return Err(Trap::Split(conds));
    };
    if n == 0 || n > terms.len() { return Err(Trap::Unsup("digits of an integer".into())); }
    let k = terms.len() - n;
    let n = n as u64;
    for (i, &t) in terms[k..].iter().enumerate() {
        let d = bin(Op::Add, extract(val_of(t), w, 0, 8), V::C(48), 8);
        it.store(st, buf + len - n + i as u64, 1, d)?;
    }
    it.put_p(st, &h.dest, V::C((buf + len - n) as u128), V::C(n as u128))?;
    Ok(Flow::Ret)
}

pub fn size_align_of_val(it: &Interp, st: &State, ty: Ty, meta: V) -> R<(u64, u64)> {
    let t = tyi(ty);
    if t.sized { return Ok((t.size, t.align)); }
    match ty.kind().rigid() {
        Some(RigidTy::Slice(_) | RigidTy::Str) => { let (e, _) = elem(ty); let et = tyi(e); let n = st.conc(meta)? as u64; Ok((et.size * n, et.align)) }
        Some(RigidTy::Dynamic(..)) => { let vt = st.conc(meta)? as u64; let s = it.load(st, vt + 8, 8)?; let a = it.load(st, vt + 16, 8)?; Ok((st.conc(s)? as u64, st.conc(a)? as u64)) }
        Some(RigidTy::Adt(d, args)) => {
            use rustc_public_bridge::IndexedVal;
            let v = d.variant(VariantIdx::to_val(0)).unwrap();
            let fs = v.fields();
            let last = fs.last().unwrap().ty_with_args(args);
            let off = field_off(ty, None, fs.len() - 1);
            let (s, a) = size_align_of_val(it, st, last, meta)?;
            let al = a.max(t.align);
            let o = (off + a - 1) / a * a;
            Ok(((o + s + al - 1) / al * al, al))
        }
        Some(RigidTy::Tuple(ts)) => {
            let off = field_off(ty, None, ts.len() - 1);
            let (s, a) = size_align_of_val(it, st, *ts.last().unwrap(), meta)?;
            let al = a.max(t.align);
            let o = (off + a - 1) / a * a;
            Ok(((o + s + al - 1) / al * al, al))
        }
        _ => Err(Trap::Unsup(format!("size_of_val {ty:?}"))),
    }
}

fn ret(it: &mut Interp, st: &mut State, h: &Hx, v: V) -> R<Flow> { it.put_s(st, &h.dest, v, h.dsize)?; Ok(Flow::Ret) }

/// symbolic memcmp: 0, 1 or -1 (i32)
pub fn memcmp(a: &[V], b: &[V]) -> V {
    let mut r = V::C(0);
    for i in (0..a.len()).rev() {
        let eq = bin(Op::Eq, a[i], b[i], 8);
        let lt = bin(Op::Ult, a[i], b[i], 8);
        r = ite(eq, r, ite(lt, V::C(0xffff_ffff), V::C(1), 32), 32);
    }
    r
}

fn bits(it: &mut Interp, st: &mut State, h: &Hx, f: fn(u128, u8) -> u128) -> R<Flow> {
    let w = (tyi(h.ty(0)).size * 8) as u8;
    let v = h.s(st, it, 0)?;
    let rw = (h.dsize * 8) as u8;
    let r = match v {
        V::C(c) => V::C(f(c, w) & mask(rw)),
        V::S(e) => match as_tab(e) { Some((var, t)) => tab(var, t.iter().map(|&x| (f(x as u128, w) & mask(rw)) as u64).collect(), rw), None => return Err(Trap::Conc(e)) },
    };
    ret(it, st, h, r)
}

fn intrinsic(n: &str) -> Hook {
    match n {
        "size_of" => |it, st, h| { let s = tyi(h.ty(0)).size; ret(it, st, h, V::C(s as u128)) },
        "align_of" | "min_align_of" | "pref_align_of" => |it, st, h| { let s = tyi(h.ty(0)).align; ret(it, st, h, V::C(s as u128)) },
        "size_of_val" | "align_of_val" | "min_align_of_val" => |it, st, h| {
            let ty = h.ty(0);
            let m = match &h.args[0] { Arg::P(_, m) => *m, _ => V::C(0) };
            let (s, a) = size_align_of_val(it, st, ty, m)?;
            let r = if cp().fns[h.f as usize].path.contains("size_of_val") { s } else { a };
            ret(it, st, h, V::C(r as u128))
        },
        "needs_drop" => |it, st, h| { let i = Instance::resolve_drop_in_place(h.ty(0)); ret(it, st, h, V::C(!i.is_empty_shim() as u128)) },
        "type_id" => |it, st, h| {
            use std::hash::{Hash, Hasher};
            let mut hs = std::collections::hash_map::DefaultHasher::new();
            format!("{:?}", h.ty(0)).hash(&mut hs);
            let x = hs.finish();
            if let RDest::Mem(m) = h.dest { it.store(st, m, 8, V::C(x as u128))?; it.store(st, m + 8, 8, V::C((!x) as u128))?; Ok(Flow::Ret) } else { Err(Trap::Unsup("type_id".into())) }
        },
        "type_name" => |it, st, h| { let s = format!("{:?}", h.ty(0)); let a = const_str(&s); it.put_p(st, &h.dest, V::C(a as u128), V::C(s.len() as u128))?; Ok(Flow::Ret) },
        "copy" | "copy_nonoverlapping" => |it, st, h| {
            let s = tyi(h.ty(0)).size;
            let (a, b, n) = (h.n(st, it, 0)?, h.n(st, it, 1)?, h.n(st, it, 2)?);
            it.copy(st, a, b, (n * s) as usize)?; Ok(Flow::Ret)
        },
        "volatile_load" | "unaligned_volatile_load" => |it, st, h| { let a = h.n(st, it, 0)?; it.put_m(st, &h.dest, a, h.dsize)?; Ok(Flow::Ret) },
        "write_bytes" | "volatile_set_memory" => |it, st, h| {
            let s = tyi(h.ty(0)).size;
            let (a, v, n) = (h.n(st, it, 0)?, h.s(st, it, 1)?, h.n(st, it, 2)?);
            let len = n * s;
            if len == 0 { return Ok(Flow::Ret); }
            match v {
                V::C(c) => { let z = vec![c as u8; len as usize]; let al = it.alloc_mut(st, (a >> 32) as u32)?; let o = a as u32 as usize; if o + z.len() > al.data.len() { return Err(Trap::Unsup("write_bytes out of bounds".into())); } al.write_piece(o, &z, &[]); }
                _ => for i in 0..len { it.store(st, a + i, 1, v)?; },
            }
            Ok(Flow::Ret)
        },
        "compare_bytes" => |it, st, h| {
            let (a, b, n) = (h.n(st, it, 0)?, h.n(st, it, 1)?, h.n(st, it, 2)?);
            let x = it.bytes(st, a, n as usize)?; let y = it.bytes(st, b, n as usize)?;
            ret(it, st, h, memcmp(&x, &y))
        },
        "raw_eq" => |it, st, h| {
            let n = tyi(h.ty(0)).size;
            let (a, b) = (h.n(st, it, 0)?, h.n(st, it, 1)?);
            let x = it.bytes(st, a, n as usize)?; let y = it.bytes(st, b, n as usize)?;
            let mut r = V::T;
            for i in 0..x.len() { r = and(r, bin(Op::Eq, x[i], y[i], 8)); }
            ret(it, st, h, zext(r, 1, 8))
        },
        "arith_offset" | "offset" => |it, st, h| {
            let pt = h.ty(0);
            let s = if cp().fns[h.f as usize].path.ends_with("::offset") { tyi(pt.kind().builtin_deref(true).unwrap().ty).size } else { tyi(pt).size };
            let (a, n) = (h.s(st, it, 0)?, h.s(st, it, 1)?);
            let v = bin(Op::Add, a, bin(Op::Mul, n, V::C(s as u128), 64), 64);
            ret(it, st, h, v)
        },
        "ptr_offset_from" | "ptr_offset_from_unsigned" => |it, st, h| {
            let s = tyi(h.ty(0)).size as u128;
            let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?);
            let d = bin(Op::Sub, a, b, 64);
            ret(it, st, h, bin(Op::SDiv, d, V::C(s), 64))
        },
        "ptr_mask" => |it, st, h| { let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?); ret(it, st, h, bin(Op::And, a, b, 64)) },
        "saturating_add" | "saturating_sub" => |it, st, h| {
            let t = h.ty(0);
            let w = (tyi(t).size * 8) as u8;
            let signed = t.kind().is_signed();
            let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?);
            let add = cp().fns[h.f as usize].path.ends_with("add");
            let op = if add { BOp::Add } else { BOp::Sub };
            let o = extract(it.overflow(op, a, b, w, w, signed), 8, 0, 1);
            let r = bin(if add { Op::Add } else { Op::Sub }, a, b, w);
            let sat = if signed { let neg = bin(Op::Slt, a, V::C(0), w); ite(neg, V::C(1 << (w - 1)), V::C(mask(w) >> 1), w) } else if add { V::C(mask(w)) } else { V::C(0) };
            ret(it, st, h, ite(o, sat, r, w))
        },
        "rotate_left" | "rotate_right" => |it, st, h| {
            let w = (tyi(h.ty(0)).size * 8) as u8;
            let a = h.s(st, it, 0)?; let n = (h.n(st, it, 1)? % w as u64) as u128;
            let n = if cp().fns[h.f as usize].path.ends_with("left") { n } else { (w as u128 - n) % w as u128 };
            let r = if n == 0 { a } else { bin(Op::Or, bin(Op::Shl, a, V::C(n), w), bin(Op::LShr, a, V::C(w as u128 - n), w), w) };
            ret(it, st, h, r)
        },
        "ctpop" => |it, st, h| bits(it, st, h, |c, _| c.count_ones() as u128),
        "ctlz" | "ctlz_nonzero" => |it, st, h| bits(it, st, h, |c, w| (c.leading_zeros() - (128 - w as u32)) as u128),
        "cttz" | "cttz_nonzero" => |it, st, h| bits(it, st, h, |c, w| if c == 0 { w as u128 } else { c.trailing_zeros() as u128 }),
        "bswap" => |it, st, h| bits(it, st, h, |c, w| c.swap_bytes() >> (128 - w as u32)),
        "bitreverse" => |it, st, h| bits(it, st, h, |c, w| c.reverse_bits() >> (128 - w as u32)),
        "exact_div" | "unchecked_div" => |it, st, h| {
            let t = h.ty(0); let w = (tyi(t).size * 8) as u8; let s = t.kind().is_signed();
            let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?);
            ret(it, st, h, bin(if s { Op::SDiv } else { Op::UDiv }, a, b, w))
        },
        "unchecked_rem" => |it, st, h| {
            let t = h.ty(0); let w = (tyi(t).size * 8) as u8; let s = t.kind().is_signed();
            let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?);
            ret(it, st, h, bin(if s { Op::SRem } else { Op::URem }, a, b, w))
        },
        "disjoint_bitor" => |it, st, h| { let w = (tyi(h.ty(0)).size * 8) as u8; let (a, b) = (h.s(st, it, 0)?, h.s(st, it, 1)?); ret(it, st, h, bin(Op::Or, a, b, w)) },
        "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "atomic_fence" | "atomic_singlethreadfence" | "prefetch_read_data" => |_, _, _| Ok(Flow::Ret),
        "likely" | "unlikely" | "black_box" => |it, st, h| { match h.args[0].clone() { Arg::S(v) => it.put_s(st, &h.dest, v, h.dsize)?, Arg::P(a, b) => it.put_p(st, &h.dest, a, b)?, Arg::M(a, n) => it.put_m(st, &h.dest, a, n as usize)?, Arg::Z => {} } Ok(Flow::Ret) },
        "is_val_statically_known" | "contract_checks" | "ub_checks" => |it, st, h| ret(it, st, h, V::C(0)),
        "overflow_checks" => |it, st, h| ret(it, st, h, V::C(1)),
        "abort" | "unreachable" | "breakpoint" => |_, _, h| Err(Trap::Panic(format!("{} reached", h.name()))),
        "caller_location" => |it, st, h| {
            static mut LOC: u64 = 0;
            let a = unsafe {
                if LOC == 0 { let s = const_str("?\0"); let mut d = s.to_le_bytes().to_vec(); d.extend(2u64.to_le_bytes()); d.extend([1, 0, 0, 0, 1, 0, 0, 0]); LOC = new_const(d, false); }
                LOC
            };
            ret(it, st, h, V::C(a as u128))
        },
        "vtable_size" => |it, st, h| { let a = h.n(st, it, 0)?; let v = it.load(st, a + 8, 8)?; ret(it, st, h, v) },
        "vtable_align" => |it, st, h| { let a = h.n(st, it, 0)?; let v = it.load(st, a + 16, 8)?; ret(it, st, h, v) },
        "select_unpredictable" => |it, st, h| {
            let c = h.s(st, it, 0)?;
            match (st.known(c), &h.args[1], &h.args[2]) {
                (None, Arg::S(a), Arg::S(b)) => { let (a, b) = (*a, *b); let w = (h.dsize * 8) as u8; ret(it, st, h, ite(bin(Op::Eq, c, V::C(1), 8), a, b, w)) }
                _ => { let k = st.conc(c)?; let a = h.args[if k != 0 { 1 } else { 2 }].clone(); match a { Arg::S(v) => it.put_s(st, &h.dest, v, h.dsize)?, Arg::P(a, b) => it.put_p(st, &h.dest, a, b)?, Arg::M(a, n) => it.put_m(st, &h.dest, a, n as usize)?, Arg::Z => {} } Ok(Flow::Ret) }
            }
        },
        "const_eval_select" => |it, st, h| {
            // generics: [ARG tuple, const fn, run-time fn, RET]
            let (arg_ty, rt) = (h.ty(0), h.ty(2));
            let k = rt.kind();
            let (d, ga) = k.fn_def().ok_or(Trap::Unsup("const_eval_select".into()))?;
            let inst = Instance::resolve(d, ga).map_err(|e| Trap::Unsup(format!("{e:?}")))?;
            let mut args = vec![];
            let ak = arg_ty.kind();
            let Some(RigidTy::Tuple(ts)) = ak.rigid() else { return Err(Trap::Unsup("const_eval_select args".into())) };
            for (i, t) in ts.iter().enumerate() {
                let ti = tyi(*t); let o = field_off(arg_ty, None, i);
                let (base, _) = match &h.args[0] { Arg::M(a, n) => (*a, *n), Arg::Z => (0, 0), _ => return Err(Trap::Unsup("const_eval_select tuple".into())) };
                args.push(match ti.cls { Cls::Z => Arg::Z, Cls::S(n) => Arg::S(it.load(st, base + o, n as usize)?), Cls::P => Arg::P(it.load(st, base + o, 8)?, it.load(st, base + o + 8, 8)?), Cls::M => Arg::M(base + o, ti.size) });
            }
            it.invoke(st, fn_id(inst), args, h.dest, h.target, h.dsize)?;
            Ok(Flow::Pushed)
        },
        "catch_unwind" => |it, st, h| {
            let f = h.s(st, it, 0)?;
            let id = it.call_addr(st, f)?;
            let data = h.s(st, it, 1)?;
            it.put_s(st, &h.dest, V::C(0), h.dsize)?;
            it.invoke(st, id, vec![Arg::S(data)], RDest::None, h.target, 0)?;
            Ok(Flow::Pushed)
        },
        _ if n.starts_with("atomic_") => {
            if n.starts_with("atomic_load") { |it, st, h| { let a = h.n(st, it, 0)?; let v = it.load(st, a, h.dsize)?; ret(it, st, h, v) } }
            else if n.starts_with("atomic_store") { |it, st, h| { let a = h.n(st, it, 0)?; let v = h.s(st, it, 1)?; let n = tyi(h.ty(0)).size; it.store(st, a, n as usize, v)?; Ok(Flow::Ret) } }
            else if n.starts_with("atomic_cxchg") {
                |it, st, h| {
                    let a = h.n(st, it, 0)?; let n = tyi(h.ty(0)).size as usize;
                    let (old, new) = (h.s(st, it, 1)?, h.s(st, it, 2)?);
                    let cur = it.load(st, a, n)?;
                    let eq = st.conc(zext(bin(Op::Eq, cur, old, (n * 8) as u8), 1, 8))?;
                    if eq != 0 { it.store(st, a, n, new)?; }
                    let RDest::Mem(m) = h.dest else { return Err(Trap::Unsup("cxchg dest".into())) };
                    it.store(st, m, n, cur)?; it.store(st, m + n as u64, 1, V::C(eq))?;
                    Ok(Flow::Ret)
                }
            }
            else {
                |it, st, h| {
                    let a = h.n(st, it, 0)?; let n = tyi(h.ty(0)).size as usize; let w = (n * 8) as u8;
                    let v = h.s(st, it, 1)?;
                    let cur = it.load(st, a, n)?;
                    let p = &cp().fns[h.f as usize].path;
                    let k = p.rsplit("atomic_").next().unwrap();
                    let new = if k.starts_with("xchg") { v } else if k.starts_with("xadd") { bin(Op::Add, cur, v, w) } else if k.starts_with("xsub") { bin(Op::Sub, cur, v, w) } else if k.starts_with("and") { bin(Op::And, cur, v, w) } else if k.starts_with("or") { bin(Op::Or, cur, v, w) } else if k.starts_with("xor") { bin(Op::Xor, cur, v, w) } else { return Err(Trap::Unsup(format!("atomic {k}"))) };
                    it.store(st, a, n, new)?;
                    ret(it, st, h, cur)
                }
            }
        }
        _ => |_, _, h| { if cp().fns[h.f as usize].inst.body().is_some() { Ok(Flow::Body) } else { Err(Trap::Unsup(format!("intrinsic {}", h.name()))) } },
    }
}

#[allow(unused)]
fn _unused(_: HashMap<u8, u8>) {}
