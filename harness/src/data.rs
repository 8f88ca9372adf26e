//! Tables read from the crate's own metadata at start-up, and builders of symbolic inputs.
use super::sym;
use phonenumber::country::Id;
use phonenumber::metadata::{DATABASE, Database, Metadata};
use phonenumber::{Mode, PhoneNumber, Type};
use std::sync::OnceLock;

/// One territory of the built-in metadata.
pub struct Reg { pub lens: Vec<usize>, pub id: &'static str, pub hint: Option<Id>, pub code: u16, pub cs: &'static str, pub meta: &'static Metadata }
/// One calling code.
pub struct Cc { pub code: u16, pub s: &'static str, pub regs: Vec<usize>, pub lens: Vec<usize>, pub example: String }
pub struct Data { pub regs: Vec<Reg>, pub codes: Vec<Cc>, pub idds: Vec<usize>, pub hints: Vec<usize>, pub custom: Database }

pub const TYPES: [Type; 17] = [Type::Unknown, Type::FixedLine, Type::Mobile, Type::TollFree, Type::PremiumRate, Type::SharedCost, Type::PersonalNumber,
    Type::Voip, Type::Pager, Type::Uan, Type::Emergency, Type::Voicemail, Type::ShortCode, Type::StandardRate, Type::Carrier, Type::NoInternational, Type::FixedLineOrMobile];

static DATA: OnceLock<Data> = OnceLock::new();
pub fn data() -> &'static Data { DATA.get().unwrap() }

/// every length some kind of number of the territory may have
fn lens(m: &Metadata) -> Vec<usize> {
    let mut v = vec![];
    for t in TYPES { if let Some(e) = m.descriptors().get(t) {
        for &l in e.possible_length() { if !v.contains(&(l as usize)) { v.push(l as usize); } }
    } }
    v.sort();
    v
}
fn build() -> Data {
    let mut regs: Vec<Reg> = DATABASE.iter().map(|m| Reg {
        lens: lens(m), id: m.id(), hint: m.id().parse().ok(), code: m.country_code(), cs: Box::leak(m.country_code().to_string().into_boxed_str()), meta: m,
    }).collect();
    // non-geographic entities share the identifier 001: take them from their calling code
    regs.retain(|r| r.id != "001");
    for c in 1..1000u16 {
        for m in DATABASE.by_code(&c).unwrap_or_default() {
            if m.id() == "001" { regs.push(Reg { lens: lens(m), id: "001", hint: None, code: c, cs: Box::leak(c.to_string().into_boxed_str()), meta: m }); }
        }
    }
    regs.sort_by(|a, b| (a.code, a.id).cmp(&(b.code, b.id)));
    let mut codes: Vec<Cc> = vec![];
    for (i, r) in regs.iter().enumerate() {
        if codes.last().is_none_or(|c| c.code != r.code) { codes.push(Cc { code: r.code, s: r.cs, regs: vec![], lens: vec![], example: String::new() }); }
        let c = codes.last_mut().unwrap();
        c.regs.push(i);
        for &l in &r.lens { if !c.lens.contains(&l) { c.lens.push(l); } }
    }
    for c in codes.iter_mut() {
        c.lens.sort();
        // a number of one of the smaller territories
        let ds = |i: usize| { let d = regs[c.regs[i]].meta.descriptors(); d.fixed_line().and_then(|d| d.example()).or(d.mobile().and_then(|d| d.example())).or(d.toll_free().and_then(|d| d.example())) };
        c.example = ds(c.regs.len() / 2).or(ds(0)).unwrap_or("12345678").to_string();
    }
    // one territory for each distinct international dialling prefix pattern
    let mut idds: Vec<usize> = vec![];
    for (i, r) in regs.iter().enumerate() {
        let p = |r: &Reg| r.meta.international_prefix().map(|x| x.as_str().to_owned());
        if r.hint.is_some() && !idds.iter().any(|&j| p(&regs[j]) == p(r)) { idds.push(i); }
    }
    let hints = (0..regs.len()).filter(|&i| regs[i].hint.is_some()).collect();
    Data { regs, codes, idds, hints, custom: super::db::custom() }
}

/// Everything lazily initialised is initialised here, concretely, before any symbolic step.
pub fn init() {
    DATA.get_or_init(build);
    for t in ["+32474091150", "tel:+64-3-331-6005;ext=1235", "+1 800 FLOWERS ext. 12"] {
        if let Ok(n) = phonenumber::parse(None, t) {
            for m in [Mode::E164, Mode::International, Mode::National, Mode::Rfc3966] { let _ = n.format().mode(m).to_string(); }
            let _ = (n.is_valid(), n.number_type(), n.country().id());
        }
    }
    let _ = phonenumber::parse(Some(Id::BR), "0 15 11 96123 4567");
}

pub const DIGITS: [u32; 10] = [48, 49, 50, 51, 52, 53, 54, 55, 56, 57];
pub fn digit() -> char { char::from(sym::pick(&DIGITS) as u8) }
/// `n` symbolic decimal digits
pub fn digits(n: usize) -> String { let mut s = String::with_capacity(n); for _ in 0..n { s.push(digit()); } s }

/// `n` digits, the first `lead` of which are separate jobs
pub fn led_digits(n: usize, lead: usize) -> String {
    let mut s = String::with_capacity(n + 8);
    while s.len() < lead.min(n) { s.push(char::from(48 + sym::split(10) as u8)); }
    while s.len() < n { s.push(digit()); }
    s
}
/// digits of a number: all symbolic, or the last six where many territories share the calling code
pub fn some_digits(c: &Cc) -> String {
    if c.regs.len() <= 2 { return digits(c.lens[c.lens.len() / 2]); }
    let k = c.example.len().saturating_sub(6);
    let mut s = String::with_capacity(24);
    s.push_str(&c.example[..k]);
    while s.len() < c.example.len() { s.push(digit()); }
    s
}
fn one_of<T: Copy>(v: &[T]) -> T { v[sym::split(v.len() as u32) as usize] }
/// A calling code and the digits of a national number: the length is a job, and for calling codes
/// shared by several territories so are the leading digits.
pub fn code_and_digits(lens: impl Fn(&Cc) -> Vec<usize>) -> (&'static Cc, String) {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    let n = one_of(&lens(c));
    let lead = match c.regs.len() { 0..=2 => (n > 12 && n < 18) as usize, 3..=6 => 1, _ => 2 };
    (c, led_digits(n, lead))
}
/// A territory that can be a hint and the digits of a number
pub fn region_and_digits(lens: impl Fn(&Reg) -> Vec<usize>) -> (&'static Reg, String) {
    let rs = &data().hints;
    let r = &data().regs[rs[sym::split(rs.len() as u32) as usize]];
    let n = one_of(&lens(r));
    (r, led_digits(n, (n > 12 && n < 16) as usize))
}
pub fn plus(c: &Cc, nsn: &str) -> String { let mut t = String::with_capacity(24); t.push('+'); t.push_str(c.s); t.push_str(nsn); t }
pub fn e164(n: &PhoneNumber) -> String { n.format().mode(Mode::E164).to_string() }
