//! Properties of how a number is written.
use super::data::*;
use super::sym;
use phonenumber::country::{Id, Source};
use phonenumber::metadata::DATABASE;
use phonenumber::{Mode, NationalNumber, PhoneNumber, is_viable, parse};
use std::hash::{Hash, Hasher};

fn same(a: &PhoneNumber, b: &PhoneNumber) -> bool { a.code() == b.code() && a.national() == b.national() && a.extension() == b.extension() }
fn ch(t: &[u32]) -> char { char::from_u32(sym::pick(t)).unwrap_or('?') }
/// the same number or the same refusal
fn agree(t: &str, a: &Result<PhoneNumber, phonenumber::ParseError>, b: &Result<PhoneNumber, phonenumber::ParseError>) {
    sym::note(|| t.to_owned());
    match (a, b) {
        (Ok(a), Ok(b)) => { sym::check(*a == *b, "another number"); sym::mark("ok"); }
        (Err(_), Err(_)) => sym::mark("rejected"),
        (Ok(_), Err(_)) => sym::check(false, "only the first text is accepted"),
        (Err(_), Ok(_)) => sym::check(false, "only the second text is accepted"),
    }
}
/// everything that can be asked of a number
fn use_number(n: &PhoneNumber) {
    for m in [Mode::E164, Mode::International, Mode::National, Mode::Rfc3966] { let _ = n.format().mode(m).to_string(); }
    let _ = (n.to_string(), n.is_valid(), n.number_type(), n.country().id(), n.country().code(), n.metadata(&DATABASE).is_some(), n.extension().is_some(), n.carrier().is_some());
}

/// One character of each kind the parser distinguishes.
const KINDS: [u32; 40] = [48, 49, 50, 51, 55, 57, '+' as u32, 0xFF0B, '-' as u32, '.' as u32, '(' as u32, ')' as u32, ' ' as u32, '*' as u32, '#' as u32, 'x' as u32, 'X' as u32,
    'e' as u32, 't' as u32, 'n' as u32, 'A' as u32, ';' as u32, '=' as u32, ',' as u32, '/' as u32, '\\' as u32, '~' as u32, ':' as u32, '@' as u32, 9, 10, 0, 0xA0, 0xF3, 0xFF13, 0x663, 0x1041, 0x2010, 0x301, 0x1F600];
fn free(n: usize) -> String { let mut s = String::with_capacity(4 * n + 40); for _ in 0..n { s.push(ch(&KINDS)); } s }
/// C01: texts of arbitrary characters.
pub fn c01() {
    free_text(sym::split(4) as usize)
}
/// ... longer ones
pub fn c01l() { free_text(4) }
fn free_text(n: usize) {
    let h = [None, Some(Id::US), Some(Id::BR)][sym::split(3) as usize];
    let mut t = String::new();
    if n > 1 {
        // the kind of the first character is a job
        let k = sym::split(8) as usize;
        t.push(ch(&KINDS[5 * k..5 * k + 5]));
    }
    t.push_str(&free(n - t.chars().count()));
    sym::note(|| format!("{t:?}"));
    match parse(h, &t) { Ok(m) => { if n < 3 { use_number(&m); } sym::mark("ok") } Err(_) => sym::mark("rejected") }
    let _ = is_viable(&t);
}
/// C01: arbitrary characters after the beginnings of well formed texts.
pub fn c01p() {
    const P: [&str; 10] = ["+3902366", "tel:+6433", "tel:0331;phone-context=+6", "+1800;ext=1", "00393123", "+39-0236;", "02 ext", "+", "tel:", "tel:1;phone-context="];
    let p = P[sym::split(P.len() as u32) as usize];
    let h = [None, Some(Id::IT), Some(Id::AR)][sym::split(3) as usize];
    let n = sym::split(3) as usize;
    let mut t = String::from(p);
    t.push_str(&free(n));
    sym::note(|| format!("{t:?}"));
    match parse(h, &t) { Ok(n) => { use_number(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}

/// C01: digits of every length after every calling code
pub fn c01n() {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    let i = c.code as usize;
    let lens = [c.lens[c.lens.len() - 1 - i % c.lens.len().min(2)], if i % 2 == 0 { 1 + i / 2 % 5 } else { 16 + i / 2 % 12 }];
    let n = lens[sym::split(2) as usize];
    let mut t = plus(c, &c.example[..(if c.regs.len() > 2 { 3 } else { 0 }).min(n)]);
    while t.len() < n + 1 + c.s.len() { t.push(digit()); }
    sym::note(|| t.clone());
    match parse(None, &t) { Ok(n) => { use_number(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
/// C01: digits of every length under every hint
pub fn c01h() {
    let d = data();
    let i = sym::split(d.hints.len() as u32) as usize;
    let r = &d.regs[d.hints[i]];
    let lens = [r.lens[r.lens.len() / 2], if i % 2 == 0 { 2 + i / 2 % 4 } else { 17 + i / 2 % 6 }];
    let n = lens[sym::split(2) as usize];
    let t = digits(n);
    sym::note(|| format!("{} {t}", r.id));
    // what follows a dialling prefix may have any calling code: see c01n
    if r.meta.international_prefix().and_then(|r| r.find(&t)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    match parse(r.hint, &t) { Ok(n) => { use_number(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
/// C01: a dialling prefix and few digits
pub fn c01i() {
    let d = data();
    let r = &d.regs[d.idds[sym::split(d.idds.len() as u32) as usize]];
    let mut t = String::with_capacity(32);
    let p = r.meta.preferred_international_prefix().map(|p| p.chars().filter(|c| c.is_ascii_digit()).collect()).unwrap_or(r.meta.international_prefix().map(|p| p.as_str().chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).unwrap_or_default());
    t.push_str(&p);
    let n = sym::split(4) as usize;
    for _ in 0..n { t.push(digit()); }
    sym::note(|| format!("{} {t}", r.id));
    match parse(r.hint, &t) { Ok(n) => { use_number(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = self.0.rotate_left(5) ^ x as u64; } }
}
fn hash(n: &PhoneNumber) -> u64 { let mut h = Sum(0); n.hash(&mut h); h.finish() }
/// C10: equality is equality of the parts; equal numbers hash equally.
pub fn c10() {
    let d = data();
    let i = sym::split(d.codes.len() as u32) as usize;
    let c = &d.codes[i];
    let n = c.lens[c.lens.len() / 2];
    // three symbolic digits each, the first, the second and one more
    let three = |n: usize, last: usize| { let mut s = String::with_capacity(32); for k in 0..n { s.push(if k < 2 || k == last { digit() } else { ['2', '3', '4', '5'][k % 4] }); } s };
    let mut a = plus(c, &three(n, n - 1 - i % 3));
    let m = if i % 2 == 0 { n } else { n + 1 };
    let mut b = plus(c, &three(m, m - 1 - i % 3));
    if sym::split(2) == 1 { a.push_str(";ext="); a.push(digit()); b.push_str(" ext. "); b.push(digit()); }
    sym::note(|| format!("{a} {b}"));
    let (Ok(a), Ok(b)) = (parse(None, &a), parse(None, &b)) else { sym::mark("rejected"); return };
    let parts = a.code().value() == b.code().value() && a.national().value() == b.national().value() && a.national().zeros() == b.national().zeros()
        && a.extension() == b.extension() && a.carrier() == b.carrier();
    sym::check((a == b) == parts, "equality is not equality of the parts");
    sym::check(!parts || hash(&a) == hash(&b), "equal numbers hash differently");
    sym::mark(if parts { "ok" } else { "different" });
}
/// C10: the way the calling code was found does not matter.
pub fn c10s() {
    let (r, t) = region_and_digits(|r| vec![r.lens[r.lens.len() / 2]]);
    let mut p = String::from("+");
    p.push_str(r.cs);
    p.push_str(&t);
    sym::note(|| format!("{} {t}", r.id));
    if r.meta.international_prefix().and_then(|r| r.find(&t)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    let (Ok(a), Ok(b)) = (parse(r.hint, &t), parse(None, &p)) else { sym::mark("rejected"); return };
    let parts = a.code().value() == b.code().value() && a.national() == b.national() && a.extension() == b.extension() && a.carrier() == b.carrier();
    sym::check((a == b) == parts, "equality depends on the spelling");
    sym::check(!parts || hash(&a) == hash(&b), "equal numbers hash differently");
    sym::mark(if parts { "ok" } else { "different" });
}

const BYTE: [u32; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = i as u32; i += 1; } t };
/// C11: value and leading zeros are kept apart.
pub fn c11() {
    let mut v = 0u64;
    for i in 0..8 { v |= (sym::pick(&BYTE) as u64) << (8 * i); }
    let z = sym::pick(&BYTE) as u8;
    sym::note(|| format!("{v} {z}"));
    match NationalNumber::new(v, z) {
        Ok(n) => {
            sym::check(v < 1 << 56, "a value too large is accepted");
            sym::check(n.value() == v, "value");
            sym::check(n.zeros() == z, "leading zeros");
            sym::check(u64::from(n) == v, "conversion to an integer");
            sym::mark("ok");
        }
        Err(_) => { sym::check(v >= 1 << 56, "a value in range is rejected"); sym::mark("rejected"); }
    }
}
/// C11: digit strings are kept.
pub fn c11s() {
    let n = 1 + sym::split(22) as usize;
    // up to 18 symbolic digits, or 18 that follow zeros, or 300 zeros and a digit
    let s = match n { 22 => { let mut s = "0".repeat(300); s.push(digit()); s } 19.. => { let mut s = "0".repeat(n - 17); s.push_str(&digits(17)); s } _ => digits(n) };
    let n = s.len();
    sym::note(|| s.clone());
    let z = s.bytes().take_while(|&b| b == b'0').count().min(n - 1);
    let big = |s: &str| s.len() > 17 || s.len() == 17 && s >= "72057594037927936";
    match s.parse::<NationalNumber>() {
        Ok(m) => {
            sym::check(!(z > 255 || big(&s[z..])), "a value too large is accepted");
            sym::check(m.zeros() as usize == z, "leading zeros");
            sym::check(m.to_string() == s, "digits");
            sym::mark("ok");
        }
        Err(_) => { sym::check((z > 255 || big(&s[z..])), "digits are rejected"); sym::mark("rejected"); }
    }
}
/// C11: anything else is rejected.
pub fn c11t() {
    let n = sym::split(4) as usize;
    let s = free(n);
    sym::note(|| format!("{s:?}"));
    let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    sym::check(s.parse::<NationalNumber>().is_ok() == ok, "text of a national number");
    sym::mark(if ok { "ok" } else { "rejected" });
}

/// all accepted punctuation but the characters that may introduce an extension
const SEP: [u32; 30] = ['-' as u32, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015, 0x2212, 0x30FC, 0xFF0D, 0xFF0E, 0xFF0F, ' ' as u32, 0xA0, 0xAD, 0x200B, 0x2060, 0x3000,
    '(' as u32, ')' as u32, 0xFF08, 0xFF09, 0xFF3B, 0xFF3D, '.' as u32, '[' as u32, ']' as u32, '/' as u32, 0x2053, 0x223C];
/// C12: separators do not matter.
pub fn c12() {
    let d = data();
    let i = sym::split(d.codes.len() as u32) as usize;
    let c = &d.codes[i];
    let t = plus(c, &some_digits(c));
    // one of them any separator, the other one of the usual
    let p = 1 + i * 5 % (t.len() - 1);
    let q = 1 + (i * 7 + 3) % (t.len() - 1);
    let mut s = String::with_capacity(48);
    for (k, x) in t.chars().enumerate() {
        if k == p { s.push(ch(&SEP)); }
        if k == q { s.push(['-', ' ', '.', '(', ')', '\u{2013}', '/'][i % 7]); }
        s.push(x);
    }
    agree(&s, &parse(None, &t), &parse(None, &s));
}
/// zeros of the decimal digits the parser knows
const ZEROS: [u32; 15] = [0xFF10, 0x660, 0x6F0, 0x7C0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xC66, 0xCE6, 0xD66, 0xE50, 0xED0, 0xFF10];
/// C12: nor does the script of the digits.
pub fn c12w() {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    let t = plus(c, &some_digits(c));
    let z = ZEROS[c.code as usize % 15];
    let mut s = String::with_capacity(72);
    let mask = [0xFFFF_FFFFu64, 0x5555_5555, 9][c.code as usize / 15 % 3];
    for (k, x) in t.chars().enumerate() {
        if mask >> k & 1 == 0 { s.push(x); } else if k == 0 { s.push('\u{FF0B}'); } else { s.push(char::from_u32(z + (x as u32 - 48)).unwrap_or('?')); }
    }
    agree(&s, &parse(None, &t), &parse(None, &s));
}

const LETTERS: [u32; 52] = { let mut t = [0; 52]; let mut i = 0; while i < 26 { t[i] = 65 + i as u32; t[26 + i] = 97 + i as u32; i += 1; } t };
const KEYS: &[u8; 26] = b"22233344455566677778889999";
/// C13: letters stand for the digits of their keys.
pub fn c13() {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    let n = (c.lens[c.lens.len() / 2]).max(7);
    let k = 3 + sym::split(3) as usize;
    let mut t = plus(c, &digits(n - k));
    let mut s = t.clone();
    if c.code % 2 == 1 { s.push('-'); }
    for _ in 0..k {
        let l = ch(&LETTERS);
        s.push(l);
        t.push(KEYS[(l as u32 as usize - 65) % 32] as char);
    }
    agree(&s, &parse(None, &t), &parse(None, &s));
}

/// characters of one, two, three and four bytes: every accepted one and others
const V1: [u32; 38] = [48, 49, 57, '+' as u32, '*' as u32, 'a' as u32, 'z' as u32, 'A' as u32, 'Z' as u32, 'Q' as u32, 'x' as u32, 'X' as u32, '-' as u32, ' ' as u32, '(' as u32, ')' as u32, '.' as u32, '[' as u32, ']' as u32,
    '/' as u32, '~' as u32, '#' as u32, ',' as u32, ';' as u32, '=' as u32, '@' as u32, '\\' as u32, ':' as u32, '_' as u32, 9, 10, 0, '{' as u32, '`' as u32, '\'' as u32, '!' as u32, '%' as u32, 127];
const V2: [u32; 7] = [0xA0, 0xAD, 0xF3, 0xB7, 0x665, 0x7C3, 0x301];
const V3: [u32; 29] = [0xFF12, 0x968, 0xFF0B, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015, 0x2016, 0x2212, 0x30FC, 0xFF0D, 0xFF0E, 0xFF0F, 0x200B, 0x2060, 0x3000, 0xFF08, 0xFF09, 0xFF3B, 0xFF3D,
    0x2053, 0x223C, 0xFF5E, 0xFF21, 0xFF58, 0x1041, 0xFF0A];
const V4: [u32; 2] = [0x1F600, 0x1D7CE];
#[derive(PartialEq, Clone, Copy)]
enum Class { Plus, Digit, Punct, X, Letter, Other }
fn class(c: char) -> Class {
    match c {
        '0'..='9' | '\u{FF10}'..='\u{FF19}' | '\u{660}'..='\u{669}' | '\u{7C0}'..='\u{7C9}' | '\u{966}'..='\u{96F}' => Class::Digit,
        '+' | '\u{FF0B}' => Class::Plus,
        'x' => Class::X,
        'a'..='z' | 'A'..='Z' => Class::Letter,
        '*' | '-' | ' ' | '(' | ')' | '.' | '[' | ']' | '/' | '~' | '\u{A0}' | '\u{AD}' | '\u{200B}' | '\u{2010}'..='\u{2015}' | '\u{2053}' | '\u{2060}' | '\u{2212}' | '\u{223C}' | '\u{3000}' | '\u{30FC}'
            | '\u{FF08}' | '\u{FF09}' | '\u{FF0D}'..='\u{FF0F}' | '\u{FF3B}' | '\u{FF3D}' | '\u{FF5E}' => Class::Punct,
        _ => Class::Other,
    }
}
/// the grammar, as an automaton: 0..4 digits seen, 4 is letters
fn grammar(s: &str) -> bool {
    let mut st = 0u32;
    let mut first = true;
    let mut only = true;
    let mut n = 0u32;
    let mut bad = false;
    for c in s.chars() {
        n += 1;
        let k = class(c);
        only &= k == Class::Digit;
        match k {
            Class::Plus => bad |= !first,
            Class::Digit => st += (st < 3) as u32,
            Class::Punct | Class::X => {}
            Class::Letter => bad |= st < 3,
            Class::Other => bad = true,
        }
        first &= k == Class::Plus;
    }
    !bad && st == 3 || only && n == 2
}
/// C14: the viability test is its grammar.
pub fn c14() {
    let n = sym::split(10) as usize;
    let mut s = String::with_capacity(32);
    let wide = if n > 4 { sym::split(n as u32) as usize } else { 9 };
    for i in 0..n {
        let w = if n > 4 { 2 * (i == wide) as u32 } else { sym::split(4) };
        s.push(match w { 0 => ch(&V1), 1 => ch(&V2), 2 => ch(&V3), _ => ch(&V4) });
    }
    sym::note(|| format!("{s:?}"));
    let g = grammar(&s);
    sym::check(is_viable(&s) == g, "viability");
    sym::mark(if g { "ok" } else { "rejected" });
}

const SPELL: [(&str, &str); 26] = [(";ext=", ""), (" ext. ", ""), (" ext ", ""), ("ext", ""), (" extn ", ""), (" extension ", ""), (" extensi\u{f3}n ", ""), (" extensio\u{301}n ", ""),
    ("x", ""), (" x ", ""), (" X", ""), (" # ", ""), ("#", ""), (",", ""), (" , ", ""), ("~", ""), (" int ", ""), (" anexo ", ""), ("\u{ff58}", ""), (" \u{ff45}\u{ff58}\u{ff54}\u{ff4e} ", ""),
    (" \u{ff49}\u{ff4e}\u{ff54} ", ""), ("\u{ff03}", ""), (" ext:", "#"), (" xtn ", ""), (" EXT. ", ""), (" - ", "#")];
/// C16: every spelling of an extension.
pub fn c16() {
    let d = data();
    let (sp, end) = SPELL[sym::split(SPELL.len() as u32) as usize];
    let k = 1 + sym::split(7) as usize;
    if sp == " - " && k > 5 { sym::mark("too long"); return; }
    let w = [39, 1, 64][sym::split(3) as usize];
    let c = d.codes.iter().find(|c| c.code == w).unwrap();
    extension(None, plus(c, &some_digits(c)), sp, end, k);
}
fn extension(h: Option<Id>, p: String, sp: &str, end: &str, k: usize) {
    let e = digits(k);
    let mut t = String::with_capacity(64);
    t.push_str(&p);
    t.push_str(sp);
    t.push_str(&e);
    t.push_str(end);
    sym::note(|| t.clone());
    match (parse(h, &p), parse(h, &t)) {
        (Ok(a), Ok(b)) => {
            sym::check(a.extension().is_none(), "an extension out of nothing");
            sym::check(b.extension().is_some_and(|x| { let x: &str = x.as_ref(); x == e }), "another extension");
            sym::check(a.code() == b.code() && a.national() == b.national(), "the extension changes the number");
            sym::mark("ok");
        }
        (Err(_), Err(_)) => sym::mark("rejected"),
        _ => sym::check(false, "the extension decides whether the number is accepted"),
    }
}
/// C16: every calling code.
pub fn c16c() {
    let d = data();
    let i = sym::split(d.codes.len() as u32) as usize;
    let (sp, end) = SPELL[i % 25];
    extension(None, plus(&d.codes[i], &some_digits(&d.codes[i])), sp, end, 1 + i % 7);
}

/// C17: parameters of telephone URIs.
pub fn c17() {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    let nat = some_digits(c);
    let e = digits(1 + c.code as usize % 4);
    let f = sym::split(9);
    let mut t = String::with_capacity(96);
    t.push_str(if c.code % 3 == 0 { "Tel:" } else { "tel:" });
    let local = f >= 6;
    if !local { t.push('+'); t.push_str(c.s); if f % 2 == 0 { t.push('-'); } }
    t.push_str(&nat);
    let mut ext = true;
    let add = |t: &mut String, k: &str, v: &str| { t.push(';'); t.push_str(k); t.push('='); t.push_str(v); };
    match f {
        0 | 1 => add(&mut t, "ext", &e),
        2 => { add(&mut t, "isub", "12345"); add(&mut t, "ext", &e); }
        3 => { add(&mut t, "ext", &e); add(&mut t, "isub", "12345"); }
        4 => { add(&mut t, "a", "b"); add(&mut t, "x-1", "+z"); ext = false; }
        5 => { add(&mut t, "isub", "9"); add(&mut t, "v2-0a", "[x:/&+$]"); add(&mut t, "ext", &e); add(&mut t, "a", "b_.!~*'()%"); }
        _ => {
            let mut cc = String::from("+");
            cc.push_str(c.s);
            if f == 7 { add(&mut t, "ext", &e); }
            add(&mut t, "phone-context", &cc);
            if f == 8 { add(&mut t, "ext", &e); }
            ext = f > 6;
        }
    }
    let p = plus(c, &nat);
    sym::note(|| t.clone());
    match (parse(None, &p), parse(None, &t)) {
        (Ok(a), Ok(b)) => {
            sym::check(a.code() == b.code() && a.national() == b.national(), "another number");
            sym::check(b.code().source() == Source::Plus, "source of the calling code");
            match b.extension() {
                None => sym::check(!ext, "extension lost"),
                Some(x) => { let x: &str = x.as_ref(); sym::check(ext && x == e, "another extension") }
            }
            sym::mark("ok");
        }
        (Err(_), Err(_)) => sym::mark("rejected"),
        _ => sym::check(false, "only one of URI and '+' text is accepted"),
    }
}

/// C21: calling code and national digits of a valid number, under the region's own hint.
pub fn c21() {
    let (r, d) = region_and_digits(|r| r.lens.clone());
    let m = r.meta;
    let g = m.descriptors().general();
    let mut t = String::with_capacity(32);
    t.push_str(r.cs);
    t.push_str(&d);
    sym::note(|| format!("{} {t}", r.id));
    if !g.is_match(&d) || g.is_match(&t) { sym::mark("invalid"); return; }
    if m.international_prefix().and_then(|r| r.find(&t)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    // the same digits may name a number of another territory, which the region's own rules do not know
    let all = data();
    if all.regs.iter().any(|o| o.code == r.code && o.id != r.id && o.meta.leading_digits().and_then(|x| x.find(&d)).is_some_and(|m| m.start() == 0)) { sym::mark("ambiguous"); return; }
    match parse(r.hint, &t) {
        Ok(n) => {
            sym::check(n.code().value() == r.code, "another calling code");
            sym::check(n.code().source() == Source::Number, "source of the calling code");
            sym::check(n.national().to_string() == d, "national digits");
        }
        Err(_) => sym::check(false, "calling code and national digits are rejected"),
    }
    sym::mark("ok");
}
/// C21: '+' and "00" without a hint.
pub fn c21p() {
    let (c, d) = code_and_digits(|c| vec![c.lens[c.lens.len() / 2]]);
    let p = plus(c, &d);
    let mut z = String::from("00");
    z.push_str(&p[1..]);
    sym::note(|| p.clone());
    let (a, b) = (parse(None, &p), parse(None, &z));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            sym::check(a.code().value() == c.code && b.code().value() == c.code, "another calling code");
            sym::check(a.code().source() == Source::Plus && b.code().source() == Source::Idd, "source of the calling code");
            sym::check(same(&a, &b), "'00' and '+' give different numbers");
            if a.is_valid() && !c.regs.iter().all(|&r| !data().regs[r].meta.descriptors().general().is_match(&d)) {
                sym::mark("ok");
            } else { sym::mark("invalid"); }
        }
        (Err(_), Err(_)) => sym::mark("rejected"),
        _ => sym::check(false, "only one of '00' and '+' is accepted"),
    }
}

/// C10: carrier codes count.
pub fn c10c() {
    let mut a = String::from("0");
    for _ in 0..2 { a.push(digit()); }
    let mut b = String::from("0");
    for _ in 0..2 { b.push(digit()); }
    for t in [&mut a, &mut b] { t.push_str("1123"); t.push(digit()); t.push_str("56789"); }
    sym::note(|| format!("{a} {b}"));
    let (Ok(a), Ok(b)) = (parse(Some(Id::BR), &a), parse(Some(Id::BR), &b)) else { sym::mark("rejected"); return };
    let parts = a.code().value() == b.code().value() && a.national().to_string() == b.national().to_string() && a.carrier() == b.carrier();
    sym::check((a == b) == parts, "equality is not equality of the parts");
    sym::check(!parts || hash(&a) == hash(&b), "equal numbers hash differently");
    sym::mark(if parts { "ok" } else if a.carrier().is_some() && a.national() == b.national() { "another carrier" } else { "different" });
}
/// digits of a national number, under a hint
fn national(i: usize) -> (&'static Reg, String) {
    let d = data();
    let r = &d.regs[d.hints[i]];
    (r, digits(r.lens[r.lens.len() / 2]))
}
/// C12: separators and scripts in national numbers.
pub fn c12h() {
    let i = sym::split(data().hints.len() as u32) as usize;
    let (r, t) = national(i);
    // what follows a dialling prefix may have any calling code: see c12
    if r.meta.international_prefix().and_then(|r| r.find(&t)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    let (p, q) = (1 + i * 5 % (t.len() - 1), 1 + (i * 7 + 3) % (t.len() - 1));
    let mut s = String::with_capacity(72);
    for (k, x) in t.chars().enumerate() {
        if k == p && i % 3 != 0 { s.push(ch(&SEP)); }
        if k == q { s.push([' ', '-', '.', '(', ')', '\u{2013}', '/'][i % 7]); }
        if i % 3 == 0 && k % 2 == 0 { s.push(char::from_u32(ZEROS[i % 15] + (x as u32 - 48)).unwrap_or('?')); } else { s.push(x); }
    }
    agree(&s, &parse(r.hint, &t), &parse(r.hint, &s));
}
/// C13: letters in national numbers.
pub fn c13h() {
    let i = sym::split(data().hints.len() as u32) as usize;
    let r = &data().regs[data().hints[i]];
    let n = r.lens[r.lens.len() / 2].max(7);
    let k = (3 + i % 4).min(n - 3);
    let mut t = digits(n - k);
    if r.meta.international_prefix().and_then(|r| r.find(&t)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    let mut s = t.clone();
    if i % 3 == 1 { s.push('-'); }
    for j in 0..k {
        let l = ch(&LETTERS);
        s.push(l);
        if j + 2 == k && i % 3 == 2 { s.push('-'); }
        t.push(KEYS[(l as u32 as usize - 65) % 32] as char);
    }
    agree(&s, &parse(r.hint, &t), &parse(r.hint, &s));
}
/// C16: extensions of national numbers.
pub fn c16h() {
    let i = sym::split(data().hints.len() as u32) as usize;
    let (r, p) = national(i);
    let (sp, end) = SPELL[i % 25];
    if r.meta.international_prefix().and_then(|r| r.find(&p)).is_some_and(|m| m.start() == 0) { sym::mark("dialling prefix"); return; }
    extension(r.hint, p, sp, end, 1 + i / 3 % 7);
}
/// C17: under any hint.
pub fn c17h() {
    let i = sym::split(data().hints.len() as u32) as usize;
    let (r, d) = national(i);
    let mut p = String::with_capacity(32);
    p.push('+'); p.push_str(r.cs); p.push_str(&d);
    let mut t = String::with_capacity(64);
    t.push_str("tel:");
    let cut = 1 + i % (d.len() - 1);
    let sep = ['-', '.', '(', ')'][i % 4];
    if i % 2 == 0 { t.push('+'); t.push_str(r.cs); t.push('-'); t.push_str(&d[..cut]); t.push(sep); t.push_str(&d[cut..]); }
    else { t.push_str(&d[..cut]); t.push(sep); t.push_str(&d[cut..]); t.push_str(";phone-context=+"); t.push_str(r.cs); }
    let h = [r.hint, data().regs[data().hints[(i * 7 + 1) % data().hints.len()]].hint][i / 2 % 2];
    agree(&t, &parse(None, &p), &parse(h, &t));
}
