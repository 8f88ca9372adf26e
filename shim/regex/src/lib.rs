//! The public API of the `regex` crate on top of six primitives (`prim`).  In an ordinary build the
//! primitives are backed by regex-automata; under `cfg(mirsym)` the symbolic executor supplies them.
#![allow(clippy::all)]
use std::borrow::Cow;
use std::fmt;
use std::sync::Arc;

pub mod prim;

#[derive(Clone, PartialEq)]
#[non_exhaustive]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Syntax(e) => f.write_str(e),
            Error::CompiledTooBig(_) => f.write_str("Compiled regex exceeds size limit"),
        }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("regex::Error(")?;
        fmt::Display::fmt(self, f)?;
        f.write_str(")")
    }
}

#[derive(Clone)]
pub struct Regex {
    h: prim::Handle,
    pattern: Arc<str>,
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.as_str()) }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_tuple("Regex").field(&self.as_str()).finish() }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> { Regex::new(s) }
}
impl TryFrom<&str> for Regex {
    type Error = Error;
    fn try_from(s: &str) -> Result<Regex, Error> { Regex::new(s) }
}
impl TryFrom<String> for Regex {
    type Error = Error;
    fn try_from(s: String) -> Result<Regex, Error> { Regex::new(&s) }
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> { RegexBuilder::new(re).build() }
    pub fn as_str(&self) -> &str { &self.pattern }
    pub fn is_match(&self, haystack: &str) -> bool { self.is_match_at(haystack, 0) }
    pub fn is_match_at(&self, haystack: &str, start: usize) -> bool { prim::is_match(&self.h, haystack, start) }
    pub fn find<'h>(&self, haystack: &'h str) -> Option<Match<'h>> { self.find_at(haystack, 0) }
    pub fn find_at<'h>(&self, haystack: &'h str, start: usize) -> Option<Match<'h>> {
        let mut se = [0usize; 2];
        if prim::find(&self.h, haystack, start, &mut se) { Some(Match { haystack, start: se[0], end: se[1] }) } else { None }
    }
    pub fn shortest_match(&self, haystack: &str) -> Option<usize> { self.find(haystack).map(|m| m.end()) }
    pub fn find_iter<'r, 'h>(&'r self, haystack: &'h str) -> Matches<'r, 'h> { Matches { re: self, haystack, at: 0, last: None } }
    pub fn captures<'h>(&self, haystack: &'h str) -> Option<Captures<'h>> { self.captures_at(haystack, 0) }
    pub fn captures_at<'h>(&self, haystack: &'h str, start: usize) -> Option<Captures<'h>> {
        let n = self.captures_len();
        let mut slots = vec![usize::MAX; 2 * n];
        if prim::captures(&self.h, haystack, start, &mut slots) { Some(Captures { haystack, slots, h: self.h.clone() }) } else { None }
    }
    pub fn captures_iter<'r, 'h>(&'r self, haystack: &'h str) -> CaptureMatches<'r, 'h> { CaptureMatches { re: self, haystack, at: 0, last: None } }
    pub fn captures_len(&self) -> usize { prim::ncaps(&self.h) }
    pub fn static_captures_len(&self) -> Option<usize> { None }
    pub fn split<'r, 'h>(&'r self, haystack: &'h str) -> Split<'r, 'h> { Split { it: self.find_iter(haystack), last: 0, done: false } }
    pub fn splitn<'r, 'h>(&'r self, haystack: &'h str, limit: usize) -> SplitN<'r, 'h> { SplitN { it: self.split(haystack), limit } }
    pub fn replace<'h, R: Replacer>(&self, haystack: &'h str, rep: R) -> Cow<'h, str> { self.replacen(haystack, 1, rep) }
    pub fn replace_all<'h, R: Replacer>(&self, haystack: &'h str, rep: R) -> Cow<'h, str> { self.replacen(haystack, 0, rep) }
    pub fn replacen<'h, R: Replacer>(&self, haystack: &'h str, limit: usize, mut rep: R) -> Cow<'h, str> {
        if let Some(rep) = rep.no_expansion() {
            let mut it = self.find_iter(haystack).enumerate().peekable();
            if it.peek().is_none() {
                return Cow::Borrowed(haystack);
            }
            let mut new = String::with_capacity(haystack.len());
            let mut last_match = 0;
            for (i, m) in it {
                new.push_str(&haystack[last_match..m.start()]);
                new.push_str(&rep);
                last_match = m.end();
                if limit > 0 && i >= limit - 1 {
                    break;
                }
            }
            new.push_str(&haystack[last_match..]);
            return Cow::Owned(new);
        }
        let mut it = self.captures_iter(haystack).enumerate().peekable();
        if it.peek().is_none() {
            return Cow::Borrowed(haystack);
        }
        let mut new = String::with_capacity(haystack.len());
        let mut last_match = 0;
        for (i, cap) in it {
            let m = cap.get(0).unwrap();
            new.push_str(&haystack[last_match..m.start()]);
            rep.replace_append(&cap, &mut new);
            last_match = m.end();
            if limit > 0 && i >= limit - 1 {
                break;
            }
        }
        new.push_str(&haystack[last_match..]);
        Cow::Owned(new)
    }
}

#[derive(Clone, Copy, Eq, PartialEq)]
pub struct Match<'h> { haystack: &'h str, start: usize, end: usize }
impl<'h> Match<'h> {
    pub fn start(&self) -> usize { self.start }
    pub fn end(&self) -> usize { self.end }
    pub fn is_empty(&self) -> bool { self.start == self.end }
    pub fn len(&self) -> usize { self.end - self.start }
    pub fn range(&self) -> std::ops::Range<usize> { self.start..self.end }
    pub fn as_str(&self) -> &'h str { &self.haystack[self.range()] }
}
impl<'h> fmt::Debug for Match<'h> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Match").field("start", &self.start).field("end", &self.end).field("string", &self.as_str()).finish()
    }
}
impl<'h> From<Match<'h>> for &'h str { fn from(m: Match<'h>) -> &'h str { m.as_str() } }
impl<'h> From<Match<'h>> for std::ops::Range<usize> { fn from(m: Match<'h>) -> std::ops::Range<usize> { m.range() } }

pub struct Captures<'h> { haystack: &'h str, slots: Vec<usize>, h: prim::Handle }
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        if i >= self.slots.len() / 2 { return None; }
        let (start, end) = (self.slots[2 * i], self.slots[2 * i + 1]);
        if start == usize::MAX { None } else { Some(Match { haystack: self.haystack, start, end }) }
    }
    pub fn get_match(&self) -> Match<'h> { self.get(0).unwrap() }
    pub fn name(&self, name: &str) -> Option<Match<'h>> { prim::cap_index(&self.h, name).and_then(|i| self.get(i)) }
    pub fn len(&self) -> usize { self.slots.len() / 2 }
    pub fn iter<'c>(&'c self) -> SubCaptureMatches<'c, 'h> { SubCaptureMatches { c: self, i: 0 } }
    pub fn extract<const N: usize>(&self) -> (&'h str, [&'h str; N]) {
        let mut out = [""; N];
        let mut k = 0;
        for i in 1..self.len() { if let Some(m) = self.get(i) { if k < N { out[k] = m.as_str(); } k += 1; } }
        assert_eq!(k, N, "asked for {N} groups, but must ask for {k}");
        (self.get_match().as_str(), out)
    }
    pub fn expand(&self, replacement: &str, dst: &mut String) {
        interpolate(replacement, |i, dst: &mut String| if let Some(m) = self.get(i) { dst.push_str(m.as_str()) }, |n| prim::cap_index(&self.h, n), dst)
    }
}
impl<'h> fmt::Debug for Captures<'h> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.iter()).finish() } }
impl<'h> std::ops::Index<usize> for Captures<'h> {
    type Output = str;
    fn index<'a>(&'a self, i: usize) -> &'a str { self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{i}'")) }
}
impl<'h, 'n> std::ops::Index<&'n str> for Captures<'h> {
    type Output = str;
    fn index<'a>(&'a self, n: &'n str) -> &'a str { self.name(n).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named '{n}'")) }
}
pub struct SubCaptureMatches<'c, 'h> { c: &'c Captures<'h>, i: usize }
impl<'c, 'h> Iterator for SubCaptureMatches<'c, 'h> {
    type Item = Option<Match<'h>>;
    fn next(&mut self) -> Option<Option<Match<'h>>> {
        if self.i >= self.c.len() { return None; }
        self.i += 1;
        Some(self.c.get(self.i - 1))
    }
}

fn next_boundary(h: &str, at: usize) -> usize {
    let mut i = at + 1;
    while i < h.len() && !h.is_char_boundary(i) { i += 1; }
    i
}
pub struct Matches<'r, 'h> { re: &'r Regex, haystack: &'h str, at: usize, last: Option<usize> }
impl<'r, 'h> Iterator for Matches<'r, 'h> {
    type Item = Match<'h>;
    fn next(&mut self) -> Option<Match<'h>> {
        if self.at > self.haystack.len() { return None; }
        let mut m = self.re.find_at(self.haystack, self.at)?;
        if m.is_empty() && self.last == Some(m.end()) {
            // an empty match adjacent to the previous match is skipped
            let at = next_boundary(self.haystack, self.at);
            if at > self.haystack.len() { self.at = at; return None; }
            m = self.re.find_at(self.haystack, at)?;
        }
        self.at = m.end();
        self.last = Some(m.end());
        Some(m)
    }
}
impl<'r, 'h> std::iter::FusedIterator for Matches<'r, 'h> {}
pub struct CaptureMatches<'r, 'h> { re: &'r Regex, haystack: &'h str, at: usize, last: Option<usize> }
impl<'r, 'h> Iterator for CaptureMatches<'r, 'h> {
    type Item = Captures<'h>;
    fn next(&mut self) -> Option<Captures<'h>> {
        if self.at > self.haystack.len() { return None; }
        let mut c = self.re.captures_at(self.haystack, self.at)?;
        let mut m = c.get_match();
        if m.is_empty() && self.last == Some(m.end()) {
            let at = next_boundary(self.haystack, self.at);
            if at > self.haystack.len() { self.at = at; return None; }
            c = self.re.captures_at(self.haystack, at)?;
            m = c.get_match();
        }
        self.at = m.end();
        self.last = Some(m.end());
        Some(c)
    }
}
impl<'r, 'h> std::iter::FusedIterator for CaptureMatches<'r, 'h> {}
pub struct Split<'r, 'h> { it: Matches<'r, 'h>, last: usize, done: bool }
impl<'r, 'h> Iterator for Split<'r, 'h> {
    type Item = &'h str;
    fn next(&mut self) -> Option<&'h str> {
        if self.done { return None; }
        match self.it.next() {
            None => { self.done = true; Some(&self.it.haystack[self.last..]) }
            Some(m) => { let s = &self.it.haystack[self.last..m.start()]; self.last = m.end(); Some(s) }
        }
    }
}
pub struct SplitN<'r, 'h> { it: Split<'r, 'h>, limit: usize }
impl<'r, 'h> Iterator for SplitN<'r, 'h> {
    type Item = &'h str;
    fn next(&mut self) -> Option<&'h str> {
        if self.limit == 0 { return None; }
        self.limit -= 1;
        if self.limit > 0 { return self.it.next(); }
        if self.it.done { return None; }
        self.it.done = true;
        Some(&self.it.it.haystack[self.it.last..])
    }
}

pub trait Replacer {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String);
    fn no_expansion<'r>(&'r mut self) -> Option<Cow<'r, str>> { None }
    fn by_ref<'r>(&'r mut self) -> ReplacerRef<'r, Self> { ReplacerRef(self) }
}
pub struct ReplacerRef<'a, R: ?Sized>(&'a mut R);
impl<'a, R: Replacer + ?Sized + 'a> Replacer for ReplacerRef<'a, R> {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { self.0.replace_append(caps, dst) }
    fn no_expansion<'r>(&'r mut self) -> Option<Cow<'r, str>> { self.0.no_expansion() }
}
fn no_exp<T: AsRef<str>>(t: &T) -> Option<Cow<'_, str>> {
    let s = t.as_ref();
    if s.as_bytes().iter().any(|&b| b == b'$') { None } else { Some(Cow::Borrowed(s)) }
}
impl<'a> Replacer for &'a str {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { caps.expand(*self, dst) }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { no_exp(self) }
}
impl<'a> Replacer for &'a String {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { caps.expand(self.as_str(), dst) }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { no_exp(self) }
}
impl Replacer for String {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { caps.expand(self.as_str(), dst) }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { no_exp(self) }
}
impl<'a> Replacer for Cow<'a, str> {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { caps.expand(self.as_ref(), dst) }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { no_exp(self) }
}
impl<'a> Replacer for &'a Cow<'a, str> {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { caps.expand(self.as_ref(), dst) }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { no_exp(self) }
}
impl<F, T> Replacer for F where F: FnMut(&Captures<'_>) -> T, T: AsRef<str> {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) { dst.push_str((*self)(caps).as_ref()); }
}
#[derive(Clone, Debug)]
pub struct NoExpand<'s>(pub &'s str);
impl<'s> Replacer for NoExpand<'s> {
    fn replace_append(&mut self, _: &Captures<'_>, dst: &mut String) { dst.push_str(self.0); }
    fn no_expansion(&mut self) -> Option<Cow<'_, str>> { Some(Cow::Borrowed(self.0)) }
}

// ---- replacement templates (regex_automata::util::interpolate) ----
fn interpolate(mut replacement: &str, mut append: impl FnMut(usize, &mut String), mut name: impl FnMut(&str) -> Option<usize>, dst: &mut String) {
    while !replacement.is_empty() {
        match replacement.as_bytes().iter().position(|&b| b == b'$') {
            None => break,
            Some(i) => { dst.push_str(&replacement[..i]); replacement = &replacement[i..]; }
        }
        if replacement.as_bytes().get(1).map_or(false, |&b| b == b'$') {
            dst.push_str("$");
            replacement = &replacement[2..];
            continue;
        }
        let (cap, end) = match find_cap_ref(replacement) {
            Some(c) => c,
            None => { dst.push_str("$"); replacement = &replacement[1..]; continue; }
        };
        replacement = &replacement[end..];
        match cap.parse::<usize>() {
            Ok(i) => append(i, dst),
            Err(_) => if let Some(i) = name(cap) { append(i, dst); },
        }
    }
    dst.push_str(replacement);
}
fn find_cap_ref(replacement: &str) -> Option<(&str, usize)> {
    let rep = replacement.as_bytes();
    if rep.len() <= 1 || rep[0] != b'$' { return None; }
    if rep[1] == b'{' {
        let mut i = 2;
        while rep.get(i).map_or(false, |&b| b != b'}') { i += 1; }
        if i >= rep.len() { return None; }
        return Some((&replacement[2..i], i + 1));
    }
    let mut end = 1;
    while rep.get(end).map_or(false, |&b| b.is_ascii_alphanumeric() || b == b'_') { end += 1; }
    if end == 1 { return None; }
    Some((&replacement[1..end], end))
}

#[derive(Clone, Debug)]
pub struct RegexBuilder { pattern: String, flags: u32 }
pub mod flag {
    pub const ICASE: u32 = 1;
    pub const MULTI: u32 = 2;
    pub const DOTNL: u32 = 4;
    pub const SWAP: u32 = 8;
    pub const XSPACE: u32 = 16;
    pub const NOUNICODE: u32 = 32;
    pub const OCTAL: u32 = 64;
    pub const CRLF: u32 = 128;
}
macro_rules! fl { ($($n:ident $f:ident;)*) => { $(pub fn $n(&mut self, yes: bool) -> &mut RegexBuilder { self.set(flag::$f, yes) })* } }
impl RegexBuilder {
    pub fn new(pattern: &str) -> RegexBuilder { RegexBuilder { pattern: pattern.to_string(), flags: 0 } }
    pub fn build(&self) -> Result<Regex, Error> {
        match prim::compile(&self.pattern, self.flags) {
            Ok(h) => Ok(Regex { h, pattern: Arc::from(self.pattern.as_str()) }),
            Err(m) => Err(Error::Syntax(m)),
        }
    }
    fn set(&mut self, f: u32, yes: bool) -> &mut RegexBuilder { if yes { self.flags |= f } else { self.flags &= !f } self }
    fl! { case_insensitive ICASE; multi_line MULTI; dot_matches_new_line DOTNL; swap_greed SWAP; ignore_whitespace XSPACE; octal OCTAL; crlf CRLF; }
    pub fn unicode(&mut self, yes: bool) -> &mut RegexBuilder { self.set(flag::NOUNICODE, !yes) }
    pub fn size_limit(&mut self, _: usize) -> &mut RegexBuilder { self }
    pub fn dfa_size_limit(&mut self, _: usize) -> &mut RegexBuilder { self }
    pub fn nest_limit(&mut self, _: u32) -> &mut RegexBuilder { self }
}

#[derive(Clone, Debug)]
pub struct RegexSet { res: Vec<Regex> }
impl RegexSet {
    pub fn new<I, S>(exprs: I) -> Result<RegexSet, Error> where S: AsRef<str>, I: IntoIterator<Item = S> {
        let mut res = vec![];
        for e in exprs { res.push(Regex::new(e.as_ref())?); }
        Ok(RegexSet { res })
    }
    pub fn is_match(&self, h: &str) -> bool { self.res.iter().any(|r| r.is_match(h)) }
    pub fn len(&self) -> usize { self.res.len() }
}

pub fn escape(pattern: &str) -> String {
    let mut s = String::new();
    for c in pattern.chars() {
        if matches!(c, '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~') { s.push('\\'); }
        s.push(c);
    }
    s
}
