//! Inputs and assertions of a harness.  Under `cfg(mirsym)` the symbolic executor replaces these
//! functions; in a native build they replay a recorded list of inputs.
#[cfg(mirsym)]
mod imp {
    #[inline(never)] pub fn split(_n: u32) -> u32 { 0 }
    #[inline(never)] pub fn choose(_n: u32) -> u32 { 0 }
    #[inline(never)] pub fn pick(t: &[u32]) -> u32 { t[0] }
    #[inline(never)] pub fn assume(_c: bool) {}
    #[inline(never)] pub fn check(_c: bool, _m: &str) {}
    #[inline(never)] pub fn mark(_m: &str) {}
    #[inline(never)] pub fn known(c: bool) -> bool { c }
    #[inline(never)] pub fn is_native() -> bool { true }
}
#[cfg(not(mirsym))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static IN: RefCell<(Vec<u32>, usize)> = RefCell::new((vec![], 0));
        pub static MARKS: RefCell<Vec<String>> = RefCell::new(vec![]);
        pub static NOTES: RefCell<Vec<String>> = RefCell::new(vec![]);
        pub static FAILS: RefCell<Vec<String>> = RefCell::new(vec![]);
    }
    pub struct Stop(pub String);
    fn next() -> u32 {
        IN.with(|i| { let mut i = i.borrow_mut(); let k = i.1; i.1 += 1; match i.0.get(k) { Some(v) => *v, None => std::panic::panic_any(Stop("inputs exhausted".into())) } })
    }
    pub fn split(n: u32) -> u32 { let v = next(); assert!(v < n, "split out of range"); v }
    pub fn choose(n: u32) -> u32 { let v = next(); assert!(v < n, "choice out of range"); v }
    pub fn pick(t: &[u32]) -> u32 { let v = next(); if !t.contains(&v) { std::panic::panic_any(Stop(format!("pick {v} not in table"))) } v }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Stop("assumption".into())) } }
    pub fn check(c: bool, m: &str) { if !c { FAILS.with(|f| f.borrow_mut().push(m.to_string())); std::panic::panic_any(Stop("check".into())) } }
    pub fn mark(m: &str) { MARKS.with(|f| f.borrow_mut().push(m.to_string())) }
    pub fn known(c: bool) -> bool { c }
    pub fn is_native() -> bool { true }
}
pub use imp::*;
/// evidence text for a replayed witness (native builds only)
#[cfg(mirsym)]
#[inline(always)]
pub fn note(_f: impl FnOnce() -> String) {}
#[cfg(not(mirsym))]
pub fn note(f: impl FnOnce() -> String) { let s = f(); NOTES.with(|n| n.borrow_mut().push(s)) }
