//! Regular expressions: the primitives of the stand-in regex crate, executed natively on concrete
//! text and as conditions over the symbolic bytes otherwise (an automaton simulation, no sampling).
use crate::expr::*;
use crate::hooks::{Flow, Hook, Hx};
use crate::interp::*;
use regex_automata::hybrid::dfa::{Cache, DFA};
use regex_automata::hybrid::LazyStateID;
use regex_automata::nfa::thompson::{self, State as NS, NFA};
use regex_automata::util::look::Look;
use regex_automata::util::primitives::StateID;
use regex_automata::util::syntax;
use regex_automata::{meta, Anchored, Input, MatchKind};
use std::collections::HashMap;
use std::rc::Rc;

pub struct Rx {
    pattern: String,
    flags: u32,
    meta: Option<meta::Regex>,
    nfa: Option<NFA>,
    dfa: Option<(DFA, Cache)>,
    pub sym_runs: u64,
}
#[derive(Default)]
pub struct Regexes { pub cache: HashMap<(u32, u8, u32, Vec<u32>), Rc<Vec<(Vec<u64>, V)>>>, pub cached: u64, map: HashMap<(String, u32), u32>, list: Vec<Rx>, pub native: u64, pub symbolic: u64 }

fn sc(flags: u32) -> syntax::Config {
    let f = |b: u32| flags & b != 0;
    syntax::Config::new().case_insensitive(f(1)).multi_line(f(2)).dot_matches_new_line(f(4)).swap_greed(f(8)).ignore_whitespace(f(16)).unicode(!f(32)).octal(f(64)).crlf(f(128))
}
impl Rx {
    fn meta(&mut self) -> &meta::Regex {
        if self.meta.is_none() {
            self.meta = Some(meta::Regex::builder().configure(meta::Config::new().nfa_size_limit(Some(10 << 20))).syntax(sc(self.flags)).build(&self.pattern).expect("regex"));
        }
        self.meta.as_ref().unwrap()
    }
    fn nfa(&mut self) -> NFA {
        if self.nfa.is_none() {
            self.nfa = Some(thompson::Compiler::new().syntax(sc(self.flags)).build(&self.pattern).expect("nfa"));
        }
        self.nfa.clone().unwrap()
    }
    fn dfa(&mut self) -> &mut (DFA, Cache) {
        if self.dfa.is_none() {
            let n = self.nfa();
            let d = DFA::builder().configure(DFA::config().match_kind(MatchKind::LeftmostFirst).unicode_word_boundary(true).cache_capacity(256 << 20)).build_from_nfa(n).expect("dfa");
            let c = d.create_cache();
            self.dfa = Some((d, c));
        }
        self.dfa.as_mut().unwrap()
    }
}
impl Regexes {
    fn compile(&mut self, p: &str, flags: u32) -> u32 {
        if let Some(&h) = self.map.get(&(p.to_string(), flags)) { return h; }
        if syntax::parse_with(p, &sc(flags)).is_err() { return 0; }
        self.list.push(Rx { pattern: p.to_string(), flags, meta: None, nfa: None, dfa: None, sym_runs: 0 });
        let h = self.list.len() as u32;
        self.map.insert((p.to_string(), flags), h);
        h
    }
    fn get(&mut self, h: u64) -> R<&mut Rx> { self.list.get_mut((h as usize).wrapping_sub(1)).ok_or(Trap::Unsup(format!("regex handle {h}"))) }
}

pub fn lookup(_name: &str, path: &str) -> Option<Hook> {
    let l = path.strip_prefix("regex::prim::imp::").or_else(|| path.strip_prefix("regex::prim::"))?;
    Some(match l {
        "raw_compile" => |it, st, h| {
            let (a, n) = h.slice(st, it, 0)?;
            let p = it.cstr(st, a, n as usize)?;
            let f = h.n(st, it, 1)? as u32;
            let r = it.res.compile(&p, f);
            it.put_s(st, &h.dest, V::C(r as u128), 4)?;
            Ok(Flow::Ret)
        },
        "raw_ncaps" => |it, st, h| {
            let id = h.n(st, it, 0)?;
            let n = it.res.get(id)?.nfa().group_info().group_len(regex_automata::PatternID::ZERO);
            it.put_s(st, &h.dest, V::C(n as u128), 8)?;
            Ok(Flow::Ret)
        },
        "raw_cap_index" => |it, st, h| {
            let id = h.n(st, it, 0)?;
            let (a, n) = h.slice(st, it, 1)?;
            let p = it.cstr(st, a, n as usize)?;
            let i = it.res.get(id)?.nfa().group_info().to_index(regex_automata::PatternID::ZERO, &p).unwrap_or(usize::MAX);
            it.put_s(st, &h.dest, V::C(i as u128), 8)?;
            Ok(Flow::Ret)
        },
        "raw_is_match" => |it, st, h| search(it, st, h, 0),
        "raw_find" => |it, st, h| search(it, st, h, 1),
        "raw_captures" => |it, st, h| search(it, st, h, 2),
        _ => return None,
    })
}

fn search(it: &mut Interp, st: &mut State, h: &Hx, kind: u8) -> R<Flow> {
    let id = h.n(st, it, 0)?;
    let (a, n) = h.slice(st, it, 1)?;
    let start = h.n(st, it, 2)? as usize;
    let mut text = it.bytes(st, a, n as usize)?;
    if start > text.len() { return Err(Trap::Panic("regex search start out of bounds".into())); }
    for b in text.iter_mut() {
        if let V::S(e) = *b {
            if let Some(c) = st.known(*b) { *b = V::C(c); }
            else if as_tab(e).is_none() { if it.verbose { eprintln!("CONCTEXT {} {:?}", show(e, 40), st.stack()); } return Err(Trap::Conc(e)); }
        }
    }
    if text.iter().all(|b| !b.is_sym()) {
        it.res.native += 1;
        let buf: Vec<u8> = text.iter().map(|b| b.c().unwrap() as u8).collect();
        let Ok(s) = std::str::from_utf8(&buf) else { return Err(Trap::Unsup("regex over invalid UTF-8".into())) };
        let m = it.res.get(id)?.meta();
        let inp = Input::new(s).span(start..s.len());
        let found = match kind {
            0 => m.is_match(inp),
            1 => match m.search(&inp) {
                Some(x) => { let o = h.n(st, it, 3)?; it.store(st, o, 8, V::C(x.start() as u128))?; it.store(st, o + 8, 8, V::C(x.end() as u128))?; true }
                None => false,
            },
            _ => {
                let mut c = m.create_captures();
                m.search_captures(&inp, &mut c);
                if c.is_match() {
                    let o = h.n(st, it, 3)?;
                    for i in 0..c.group_len() as u64 {
                        let (x, y) = match c.get_group(i as usize) { Some(s) => (s.start as u64, s.end as u64), None => (u64::MAX, u64::MAX) };
                        it.store(st, o + i * 16, 8, V::C(x as u128))?;
                        it.store(st, o + i * 16 + 8, 8, V::C(y as u128))?;
                    }
                    true
                } else { false }
            }
        };
        it.put_s(st, &h.dest, V::C(found as u128), 1)?;
        return Ok(Flow::Ret);
    }
    it.res.symbolic += 1;
    // over ASCII bytes the outcome does not depend on the path: computed once per text
    let ascii = text.iter().all(|b| match b { V::C(_) => true, V::S(e) => info(*e).hi < 0x80 });
    let key = (id as u32, kind, start as u32, text.iter().map(|b| match b { V::C(c) => *c as u32 | 1 << 31, V::S(e) => *e }).collect::<Vec<u32>>());
    let outs: Rc<Vec<(Vec<u64>, V)>> = match it.res.cache.get(&key) {
        Some(o) if ascii => { it.res.cached += 1; o.clone() }
        _ => {
            let rx = it.res.get(id)?;
            rx.sym_runs += 1;
            let ctx = if ascii { None } else { Some(&*st) };
            let o = match kind { 0 => vec![(vec![], is_match(rx, ctx, &text, start)?)], 1 => find(rx, ctx, &text, start)?, _ => pike(rx, ctx, &text, start)? };
            let o = Rc::new(o);
            if ascii { it.res.cache.insert(key, o.clone()); }
            o
        }
    };
    if kind == 0 {
        let f = outs[0].1;
        let r = st.known(f).map(V::C).unwrap_or(f);
        it.put_s(st, &h.dest, zext(r, 1, 8), 1)?;
        return Ok(Flow::Ret);
    }
    let o = h.n(st, it, 3)?;
    // drop outcomes impossible on this path
    let outs: Vec<_> = outs.iter().filter(|(_, c)| st.known(*c) != Some(0)).cloned().collect();
    let mut found = V::F;
    for (_, c) in &outs { found = or(found, *c); }
    let found = st.known(found).map(V::C).unwrap_or(found);
    if let Some((last, rest)) = outs.split_last() {
        for k in 0..last.0.len() {
            let mut v = V::C(last.0[k] as u128);
            for (s, c) in rest.iter().rev() { v = ite(*c, V::C(s[k] as u128), v, 64); }
            it.store(st, o + 8 * k as u64, 8, v)?;
        }
    }
    it.put_s(st, &h.dest, zext(found, 1, 8), 1)?;
    Ok(Flow::Ret)
}

/// successors of one input byte: groups of table entries by key
fn by_byte<K: PartialEq + Clone>(st: Option<&State>, b: V, mut f: impl FnMut(u8) -> K) -> Vec<(K, V)> {
    match b {
        V::C(c) => vec![(f(c as u8), V::T)],
        V::S(e) => {
            let (var, t) = as_tab(e).unwrap();
            let d = match st { Some(st) => st.dom(var), None => [!0; 4] };
            let mut g: Vec<(K, Vec<u64>, bool)> = vec![];
            let mut memo: HashMap<u64, K> = HashMap::new();
            for (i, &x) in t.iter().enumerate() {
                let k = memo.entry(x).or_insert_with(|| f(x as u8)).clone();
                let live = dom_has(&d, i);
                match g.iter_mut().find(|q| q.0 == k) {
                    Some(q) => { q.1[i] = 1; q.2 |= live; }
                    None => { let mut m = vec![0; t.len()]; m[i] = 1; g.push((k, m, live)); }
                }
            }
            g.retain(|q| q.2);
            if g.len() == 1 { return vec![(g.pop().unwrap().0, V::T)]; }
            g.into_iter().map(|(k, m, _)| (k, tab(var, m, 1))).collect()
        }
    }
}
fn add<K: PartialEq>(v: &mut Vec<(K, V)>, k: K, c: V) {
    if c == V::F { return; }
    match v.iter_mut().find(|q| q.0 == k) { Some(q) => q.1 = or(q.1, c), None => v.push((k, c)) }
}
fn unsup(m: &str) -> Trap { Trap::Unsup(format!("regex model: {m}")) }

fn is_match(rx: &mut Rx, st: Option<&State>, text: &[V], start: usize) -> R<V> {
    let (dfa, cache) = rx.dfa();
    let hay: Vec<u8> = text.iter().map(|b| b.c().unwrap_or(0) as u8).collect();
    let inp = Input::new(&hay).span(start..hay.len()).anchored(Anchored::No);
    if start > 0 && text[start - 1].is_sym() { return Err(unsup("look-behind at a symbolic byte")); }
    let s0 = dfa.start_state_forward(cache, &inp).map_err(|_| unsup("start state"))?;
    // condition under which the rest of the text leads to a match, per position and state
    fn rec(dfa: &DFA, cache: &mut Cache, st: Option<&State>, text: &[V], i: usize, s: LazyStateID, memo: &mut HashMap<(usize, LazyStateID), V>) -> R<V> {
        if let Some(&v) = memo.get(&(i, s)) { return Ok(v); }
        let v = if i == text.len() {
            let n = dfa.next_eoi_state(cache, s).map_err(|_| unsup("cache overflow"))?;
            V::C(n.is_match() as u128)
        } else {
            let mut err = false;
            let mut r = vec![];
            for (n, bc) in by_byte(st, text[i], |b| dfa.next_state(cache, s, b).unwrap_or_else(|_| { err = true; s })) {
                if n.is_quit() { return Err(unsup("quit state")); }
                let c = if n.is_match() { V::T } else if n.is_dead() { V::F } else { rec(dfa, cache, st, text, i + 1, n, memo)? };
                r.push((c, bc));
            }
            if err { return Err(unsup("cache overflow")); }
            by_child(r)
        };
        memo.insert((i, s), v);
        Ok(v)
    }
    rec(dfa, cache, st, text, start, s0, &mut HashMap::new())
}
/// or over (condition of the rest, condition on this byte)
fn by_child(r: Vec<(V, V)>) -> V {
    let mut g: Vec<(V, V)> = vec![];
    for (c, bc) in r {
        if c == V::F { continue; }
        match g.iter_mut().find(|x| x.0 == c) { Some(x) => x.1 = or(x.1, bc), None => g.push((c, bc)) }
    }
    let mut v = V::F;
    for (c, bc) in g { v = or(v, and(bc, c)); }
    v
}

fn boundary(st: Option<&State>, text: &[V], i: usize) -> R<bool> {
    if i == 0 || i >= text.len() { return Ok(true); }
    match text[i] {
        V::C(c) => Ok((c as u8 as i8) >= -0x40),
        V::S(e) => { let (l, h) = match st { Some(st) => st.range(e), None => (info(e).lo, info(e).hi) }; if h < 0x80 || l >= 0xc0 { Ok(true) } else if l >= 0x80 && h < 0xc0 { Ok(false) } else { Err(Trap::Conc(e)) } }
    }
}

fn find(rx: &mut Rx, st: Option<&State>, text: &[V], start: usize) -> R<Vec<(Vec<u64>, V)>> {
    let (dfa, cache) = rx.dfa();
    let hay: Vec<u8> = text.iter().map(|b| b.c().unwrap_or(0) as u8).collect();
    let mut out: Vec<(Vec<u64>, V)> = vec![];
    let mut pre = V::T;
    for s in start..=text.len() {
        if pre == V::F { break; }
        if !boundary(st, text, s)? { continue; }
        let inp = Input::new(&hay).span(s..hay.len()).anchored(Anchored::Yes);
        if s > 0 && text[s - 1].is_sym() && !dfa.get_nfa().look_set_any().is_empty() {
            // only start/end-of-text assertions are independent of the previous byte
            let l = dfa.get_nfa().look_set_any();
            if l.contains_word() || l.contains_anchor_line() { return Err(unsup("look-behind at a symbolic byte")); }
        }
        let s0 = dfa.start_state_forward(cache, &inp).map_err(|_| unsup("start state"))?;
        let ends: Vec<(Option<usize>, V)> = ends_from(dfa, cache, st, text, s, s0, None, &mut HashMap::new())?.iter().map(|(e, c)| (*e, and(pre, *c))).filter(|x| x.1 != V::F).collect();
        pre = V::F;
        for (e, c) in ends {
            match e { Some(e) => out.push((vec![s as u64, e as u64], c)), None => pre = or(pre, c) }
        }
    }
    Ok(out)
}

type Ends = Rc<Vec<(Option<usize>, V)>>;
/// possible ends of the leftmost-first match, with the condition on the rest of the text
fn ends_from(dfa: &DFA, cache: &mut Cache, st: Option<&State>, text: &[V], i: usize, q: LazyStateID, lm: Option<usize>, memo: &mut HashMap<(usize, LazyStateID, Option<usize>), Ends>) -> R<Ends> {
    if let Some(v) = memo.get(&(i, q, lm)) { return Ok(v.clone()); }
    let v: Vec<(Option<usize>, V)> = if i == text.len() {
        let n = dfa.next_eoi_state(cache, q).map_err(|_| unsup("cache overflow"))?;
        vec![(if n.is_match() { Some(i) } else { lm }, V::T)]
    } else {
        let mut err = false;
        let mut by_end: Vec<(Option<usize>, Vec<(V, V)>)> = vec![];
        for (n, bc) in by_byte(st, text[i], |b| dfa.next_state(cache, q, b).unwrap_or_else(|_| { err = true; q })) {
            if n.is_quit() { return Err(unsup("quit state")); }
            let sub: Ends = if n.is_dead() { Rc::new(vec![(lm, V::T)]) } else { ends_from(dfa, cache, st, text, i + 1, n, if n.is_match() { Some(i) } else { lm }, memo)? };
            for (e, c) in sub.iter() {
                match by_end.iter_mut().find(|x| x.0 == *e) { Some(x) => x.1.push((*c, bc)), None => by_end.push((*e, vec![(*c, bc)])) }
            }
        }
        if err { return Err(unsup("cache overflow")); }
        by_end.into_iter().map(|(e, r)| (e, by_child(r))).collect()
    };
    let v = Rc::new(v);
    memo.insert((i, q, lm), v.clone());
    Ok(v)
}

type Slots = Rc<[u64]>;
struct Pk<'a> { nfa: &'a NFA, text: &'a [V], nslots: usize }
struct List { th: Vec<(StateID, Slots, V)>, seen: HashMap<StateID, V> }

impl<'a> Pk<'a> {
    fn close(&self, l: &mut List, s: StateID, at: usize, slots: &Slots, c: V) -> R<()> {
        let c = match l.seen.get(&s) { Some(&old) => { if old == V::T { return Ok(()) } and(c, not(old)) } None => c };
        if c == V::F { return Ok(()); }
        let o = l.seen.entry(s).or_insert(V::F);
        *o = or(*o, c);
        match self.nfa.state(s) {
            NS::Fail => {}
            NS::ByteRange { .. } | NS::Sparse(_) | NS::Dense(_) | NS::Match { .. } => {
                if let Some(x) = l.th.last_mut() { if x.0 == s && x.1 == *slots { x.2 = or(x.2, c); return Ok(()); } }
                l.th.push((s, slots.clone(), c));
            }
            NS::Look { look, next } => {
                let ok = match look {
                    Look::Start => at == 0,
                    Look::End => at == self.text.len(),
                    _ => return Err(unsup("look-around in a capturing search")),
                };
                if ok { self.close(l, *next, at, slots, c)?; }
            }
            NS::Union { alternates } => for &a in alternates.iter() { self.close(l, a, at, slots, c)?; },
            NS::BinaryUnion { alt1, alt2 } => { self.close(l, *alt1, at, slots, c)?; self.close(l, *alt2, at, slots, c)?; }
            NS::Capture { next, slot, .. } => {
                let k = slot.as_usize();
                if k < self.nslots { let mut v = slots.to_vec(); v[k] = at as u64; self.close(l, *next, at, &v.into(), c)?; }
                else { self.close(l, *next, at, slots, c)?; }
            }
        }
        Ok(())
    }
}

fn pike(rx: &mut Rx, st: Option<&State>, text: &[V], start: usize) -> R<Vec<(Vec<u64>, V)>> {
    let nfa = rx.nfa();
    let nslots = nfa.group_info().slot_len();
    let p = Pk { nfa: &nfa, text, nslots };
    let none: Slots = vec![u64::MAX; nslots].into();
    let mut cur = List { th: vec![], seen: HashMap::new() };
    let mut out: Vec<(Slots, V)> = vec![];
    let mut nomatch = V::T; // no match recorded so far
    for at in start..=text.len() {
        if nomatch != V::F && boundary(st, text, at)? { p.close(&mut cur, nfa.start_anchored(), at, &none, nomatch)?; }
        if cur.th.is_empty() && nomatch == V::F { break; }
        let mut nx = List { th: vec![], seen: HashMap::new() };
        let mut cut = V::F; // a higher-priority thread matched here
        for (s, slots, c) in std::mem::take(&mut cur.th) {
            let c = if cut == V::F { c } else { and(c, not(cut)) };
            let c = match st.and_then(|st| st.known(c)) { Some(k) => V::C(k), None => c };
            if c == V::F { continue; }
            if let NS::Match { .. } = nfa.state(s) {
                for o in out.iter_mut() { o.1 = and(o.1, not(c)); }
                out.retain(|o| o.1 != V::F);
                out.push((slots, c));
                cut = or(cut, c);
                nomatch = and(nomatch, not(c));
                continue;
            }
            if at == text.len() { continue; }
            let groups = by_byte(st, text[at], |b| match nfa.state(s) {
                NS::ByteRange { trans } => if trans.matches_byte(b) { Some(trans.next) } else { None },
                NS::Sparse(t) => t.matches_byte(b),
                NS::Dense(t) => t.matches_byte(b),
                _ => None,
            });
            for (n, bc) in groups {
                if let Some(n) = n { p.close(&mut nx, n, at + 1, &slots, and(c, bc))?; }
            }
            if nx.th.len() > 5000 { return Err(unsup("too many threads")); }
        }
        cur = nx;
    }
    Ok(out.into_iter().map(|(s, c)| (s.to_vec(), c)).collect())
}
