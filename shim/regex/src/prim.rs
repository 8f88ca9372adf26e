//! The primitives.
#[cfg(mirsym)]
mod imp {
    pub type Handle = u32;
    extern "Rust" {}
    // bodies are replaced by the symbolic executor
    #[inline(never)] pub fn raw_compile(_p: &str, _flags: u32) -> u32 { 0 }
    #[inline(never)] pub fn raw_ncaps(_h: u32) -> usize { 0 }
    #[inline(never)] pub fn raw_is_match(_h: u32, _t: &str, _start: usize) -> bool { false }
    #[inline(never)] pub fn raw_find(_h: u32, _t: &str, _start: usize, _out: *mut usize) -> bool { false }
    #[inline(never)] pub fn raw_captures(_h: u32, _t: &str, _start: usize, _out: *mut usize) -> bool { false }
    #[inline(never)] pub fn raw_cap_index(_h: u32, _n: &str) -> usize { 0 }

    pub fn compile(p: &str, flags: u32) -> Result<Handle, String> { match raw_compile(p, flags) { 0 => Err("regex parse error".to_string()), h => Ok(h) } }
    pub fn ncaps(h: &Handle) -> usize { raw_ncaps(*h) }
    pub fn is_match(h: &Handle, t: &str, start: usize) -> bool { raw_is_match(*h, t, start) }
    pub fn find(h: &Handle, t: &str, start: usize, out: &mut [usize; 2]) -> bool { raw_find(*h, t, start, out.as_mut_ptr()) }
    pub fn captures(h: &Handle, t: &str, start: usize, out: &mut [usize]) -> bool { raw_captures(*h, t, start, out.as_mut_ptr()) }
    pub fn cap_index(h: &Handle, n: &str) -> Option<usize> { let i = raw_cap_index(*h, n); if i == usize::MAX { None } else { Some(i) } }
}
#[cfg(not(mirsym))]
mod imp {
    use regex_automata::{meta, Input};
    use std::sync::Arc;
    pub type Handle = Arc<meta::Regex>;
    pub fn compile(p: &str, flags: u32) -> Result<Handle, String> {
        use crate::flag::*;
        let sc = regex_automata::util::syntax::Config::new()
            .case_insensitive(flags & ICASE != 0).multi_line(flags & MULTI != 0).dot_matches_new_line(flags & DOTNL != 0)
            .swap_greed(flags & SWAP != 0).ignore_whitespace(flags & XSPACE != 0).unicode(flags & NOUNICODE == 0)
            .octal(flags & OCTAL != 0).crlf(flags & CRLF != 0);
        meta::Regex::builder().configure(meta::Config::new().nfa_size_limit(Some(10 * (1 << 20)))).syntax(sc).build(p).map(Arc::new).map_err(|e| e.to_string())
    }
    pub fn ncaps(h: &Handle) -> usize { h.captures_len() }
    pub fn is_match(h: &Handle, t: &str, start: usize) -> bool { h.is_match(Input::new(t).span(start..t.len())) }
    pub fn find(h: &Handle, t: &str, start: usize, out: &mut [usize; 2]) -> bool {
        match h.search(&Input::new(t).span(start..t.len())) { Some(m) => { out[0] = m.start(); out[1] = m.end(); true } None => false }
    }
    pub fn captures(h: &Handle, t: &str, start: usize, out: &mut [usize]) -> bool {
        let mut c = h.create_captures();
        h.search_captures(&Input::new(t).span(start..t.len()), &mut c);
        if !c.is_match() { return false; }
        for i in 0..out.len() / 2 { if let Some(s) = c.get_group(i) { out[2 * i] = s.start; out[2 * i + 1] = s.end; } }
        true
    }
    pub fn cap_index(h: &Handle, n: &str) -> Option<usize> { h.group_info().to_index(regex_automata::PatternID::ZERO, n) }
}
pub use imp::*;
