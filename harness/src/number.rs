//! Properties of the number a text parses to.
use super::data::*;
use super::{store, sym};
use phonenumber::country::{Id, Source};
use phonenumber::metadata::{DATABASE, Metadata};
use phonenumber::{Mode, PhoneNumber, Type, parse};

macro_rules! at_start { ($re:expr, $s:expr) => { $re.and_then(|r| r.find($s)).is_some_and(|m| m.start() == 0) } }
/// equal but for the carrier code, which only the national form shows
fn same(a: &PhoneNumber, b: &PhoneNumber) -> bool { a.code() == b.code() && a.national() == b.national() && a.extension() == b.extension() }
fn only_digits(s: &str) -> String { s.chars().filter(|c| c.is_ascii_digit()).collect() }

fn well_formed(n: &PhoneNumber) {
    sym::check(DATABASE.by_code(&n.code().value()).is_some(), "calling code is not in the metadata");
    let d = n.national().to_string();
    sym::check(d.len() >= 2 && d.len() <= 17 && d.bytes().all(|b| b.is_ascii_digit()), "national number is not 2 to 17 digits");
    sym::check(n.extension().is_none_or(|e| { let e = e.to_string(); !e.is_empty() && e.bytes().all(|b| b.is_ascii_digit()) }), "extension is not digits");
    sym::check(n.carrier().is_none_or(|e| { let e: &str = e.as_ref(); !e.is_empty() && e.bytes().all(|b| b.is_ascii_digit()) }), "carrier is not digits");
}
fn some_lens(v: &[usize]) -> Vec<usize> { let mut v = v.to_vec(); for x in [1, 2, 17, 18] { if !v.contains(&x) { v.push(x); } } v }

/// C02: what is parsed is well formed: explicit calling code, then region hint.
pub fn c02() {
    let (c, nsn) = code_and_digits(|c| some_lens(&c.lens));
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    match parse(None, &t) { Ok(n) => { well_formed(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
pub fn c02n() {
    let (r, t) = region_and_digits(|r| some_lens(&r.lens));
    sym::note(|| format!("{} {t}", r.id));
    if at_start!(r.meta.international_prefix(), &t) { sym::mark("dialling prefix"); return; }
    match parse(r.hint, &t) { Ok(n) => { well_formed(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}

/// C03: the E.164 form is '+', the calling code and the national digits.
pub fn c03() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    let e = e164(&n);
    let mut want = String::from("+");
    want.push_str(&n.code().value().to_string());
    for _ in 0..n.national().zeros() { want.push('0'); }
    want.push_str(&n.national().value().to_string());
    sym::check(e == want, "E.164 form");
    sym::check(n.to_string() == want, "Display form");
    sym::check(n.format_with(&DATABASE).mode(Mode::E164).to_string() == want, "E.164 form with a database");
    sym::mark("ok");
}

/// C04: parsing the E.164 form of a valid number gives an equal number.
pub fn c04() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    sym::mark("ok");
    let e = e164(&n);
    sym::note(|| e.clone());
    match parse(None, &e) {
        Ok(m) => sym::check(same(&m, &n), "E.164 form of a valid number parses to a different number"),
        Err(_) => sym::check(false, "E.164 form of a valid number is rejected"),
    }
}

/// The digits a territory's formats may put before a national number
fn declared_prefixes(m: &Metadata, carrier: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let np = m.national_prefix().unwrap_or("");
    for f in m.formats() {
        let lit: String = only_digits(f.format().split('$').next().unwrap());
        for rule in [f.national_prefix(), f.domestic_carrier(), Some("")].into_iter().flatten() {
            let mut s = String::new();
            let rule = rule.replace("$FG", "").replace("$1", "");
            let (a, b) = rule.split_once("$CC").map_or((&rule[..], None), |(a, b)| (a, Some(b)));
            s.push_str(&only_digits(&a.replace("$NP", np)));
            if let Some(b) = b { s.push_str(carrier); s.push_str(&only_digits(&b.replace("$NP", np))); }
            s.push_str(&lit);
            if !v.contains(&s) { v.push(s); }
        }
    }
    v
}
/// whether one of the formats writes digits of its own between the groups
fn rewrites(m: &Metadata) -> bool {
    m.formats().iter().any(|f| f.format().split('$').skip(1).any(|p| p.chars().skip(1).any(|c| c.is_ascii_digit())))
}
/// C05: formatting keeps the digits.
pub fn c05() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let nat = n.national().to_string();
    let all = plus(c, &nat);
    let i = n.format().mode(Mode::International).to_string();
    sym::note(|| i.clone());
    sym::check(i.starts_with('+') && only_digits(&i) == all[1..], "digits of the international form");
    let r = n.format().mode(Mode::Rfc3966).to_string();
    sym::note(|| r.clone());
    sym::check(r.starts_with("tel:+") && only_digits(&r) == all[1..], "digits of the RFC 3966 form");
    let l = n.format().mode(Mode::National).to_string();
    sym::note(|| l.clone());
    let m = DATABASE.by_code(&c.code).unwrap()[0];
    if rewrites(m) { sym::mark("rewritten"); return; }
    let l = only_digits(&l);
    let carrier = n.carrier().map(|c| c.to_string()).unwrap_or_default();
    sym::check(l.ends_with(&nat), "national form lost digits");
    let p = &l[..l.len() - nat.len()];
    sym::check(declared_prefixes(m, &carrier).iter().any(|d| d == p), "national form adds digits");
    sym::mark("ok");
}
/// C06: international and RFC 3966 forms parse back to the same number.
pub fn c06() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let i = n.format().mode(Mode::International).to_string();
    sym::note(|| i.clone());
    match parse(None, &i) { Ok(m) => sym::check(same(&m, &n), "international form parses to a different number"), Err(_) => sym::check(false, "international form is rejected") }
    let i = n.format().mode(Mode::Rfc3966).to_string();
    sym::note(|| i.clone());
    match parse(None, &i) { Ok(m) => sym::check(same(&m, &n), "RFC 3966 form parses to a different number"), Err(_) => sym::check(false, "RFC 3966 form is rejected") }
    sym::mark("ok");
}

fn is_number(n: &PhoneNumber, code: u16, nsn: &str) -> bool { n.code().value() == code && n.national().to_string() == nsn }

/// C07: the national digits of a number of the hinted region parse to that number.
pub fn c07() {
    let (r, t) = region_and_digits(|r| r.lens.clone());
    sym::note(|| format!("{} {t}", r.id));
    let m = r.meta;
    if !m.descriptors().general().is_match(&t) { sym::mark("invalid"); return; }
    if at_start!(m.international_prefix(), &t) { sym::mark("dialling prefix"); return; }
    if at_start!(m.national_prefix_for_parsing(), &t) || m.national_prefix_for_parsing().is_none() && m.national_prefix().is_some_and(|p| t.starts_with(p)) { sym::mark("trunk prefix"); return; }
    match parse(r.hint, &t) {
        Ok(n) => { sym::check(is_number(&n, r.code, &t), "national digits parse to another number"); sym::check(n.code().source() == Source::Default, "source of the calling code"); }
        Err(_) => sym::check(false, "national digits are rejected"),
    }
    sym::mark("ok");
}
/// C07: ... and so do they with the trunk prefix in front.
pub fn c07t() {
    let (r, t) = region_and_digits(|r| r.lens.clone());
    let m = r.meta;
    let Some(p) = m.national_prefix() else { sym::mark("no trunk prefix"); return };
    let mut f = String::with_capacity(24);
    f.push_str(p);
    f.push_str(&t);
    sym::note(|| format!("{} {f}", r.id));
    let g = m.descriptors().general();
    if !g.is_match(&t) || g.is_match(&f) { sym::mark("invalid"); return; }
    if at_start!(m.international_prefix(), &f) { sym::mark("dialling prefix"); return; }
    if f.starts_with(r.cs) { sym::mark("calling code"); return; }
    if let Some(re) = m.national_prefix_for_parsing() {
        // the rule may see more than the trunk prefix in it, such as a carrier code
        if re.find(&f).is_none_or(|x| x.start() != 0 || x.end() != p.len()) { sym::mark("other prefix"); return; }
    }
    match parse(r.hint, &f) {
        Ok(n) => sym::check(is_number(&n, r.code, &t), "national digits with trunk prefix parse to another number"),
        Err(_) => sym::check(false, "national digits with trunk prefix are rejected"),
    }
    sym::mark("ok");
}

/// every calling code with every distinct dialling prefix rule
pub fn c08all() {
    let d = data();
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let hs: Vec<Option<Id>> = d.idds.iter().map(|&i| d.regs[i].hint).collect();
    agree(&t, &hs);
}
fn agree(t: &str, hints: &[Option<Id>]) {
    let a = parse(None, t);
    for &h in hints {
        match (&a, parse(h, t)) {
            (Ok(a), Ok(b)) => sym::check(*a == b, "the number depends on the hint"),
            (Err(_), Err(_)) => {}
            _ => { sym::check(false, "acceptance depends on the hint"); }
        }
    }
    sym::mark(if a.is_ok() { "ok" } else { "rejected" });
}
/// C08: a number with '+' does not depend on the hint.
pub fn c08() {
    let d = data();
    let (c, nsn) = code_and_digits(|c| vec![c.lens[0], c.lens[c.lens.len() / 2]]);
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    // every calling code with 16 of the hints, every hint with some calling code
    let hs: Vec<Option<Id>> = (0..16).map(|k| d.regs[d.idds[(c.code as usize * 16 + k) % d.idds.len()]].hint).collect();
    agree(&t, &hs);
}

/// C09: validity, type and region agree.
pub fn c09() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    valid_agrees(&n, c);
}
fn recognises(m: &Metadata, nat: &str) -> bool {
    m.descriptors().general().is_match(nat) && TYPES.iter().any(|&t| {
        !matches!(t, Type::Unknown | Type::Emergency | Type::ShortCode | Type::StandardRate | Type::Carrier | Type::NoInternational | Type::FixedLineOrMobile)
            && m.descriptors().get(t).is_some_and(|d| d.is_match(nat))
    })
}
fn valid_agrees(n: &PhoneNumber, c: &Cc) {
    let v = n.is_valid();
    let k = n.number_type();
    sym::check(v == (k != Type::Unknown), "a valid number of unknown type, or an invalid one of known type");
    sym::check(n.is_valid_with(&DATABASE) == v && n.number_type_with(&DATABASE) == k, "built-in and given database differ");
    let nat = n.national().to_string();
    let m = n.metadata(&DATABASE);
    if let Some(m) = m {
        sym::check(m.country_code() == n.code().value(), "region of another calling code");
        sym::check(v == recognises(m, &nat), "validity differs from the region's rules");
        match n.country().id() {
            Ok(i) => sym::check(i.is_some_and(|i| i.as_ref() == m.id()), "region identifier"),
            Err(_) => sym::check(m.id() == "001", "region identifier missing"),
        }
    } else {
        sym::check(!v, "valid without a region");
    }
    let any = c.regs.iter().any(|&r| recognises(data().regs[r].meta, &nat));
    sym::check(v == any, "validity differs from what some region recognises");
    sym::mark(if v { "ok" } else { "invalid" });
}

/// C15: the region's international dialling prefix means '+'.
pub fn c15() {
    let d = data();
    let (c, nsn) = code_and_digits(|c| vec![c.lens[c.lens.len() / 2]]);
    let p = plus(c, &nsn);
    let a = parse(None, &p);
    for &h in &d.hints {
        let r = &d.regs[h];
        // only prefixes without alternatives, one territory for each
        let Some(i) = r.meta.international_prefix() else { continue };
        let i = i.as_str();
        if !i.bytes().all(|b| b.is_ascii_digit()) || !d.idds.contains(&h) { continue; }
        let mut t = String::with_capacity(32);
        t.push_str(i);
        t.push_str(&p[1..]);
        sym::note(|| format!("{} {t}", r.id));
        match (&a, parse(r.hint, &t)) {
            (Ok(a), Ok(b)) => { sym::check(same(a, &b), "dialling prefix and '+' give different numbers"); sym::check(b.code().source() == Source::Idd, "source of the calling code"); }
            (Err(_), Err(_)) => {}
            _ => sym::check(false, "only one of dialling prefix and '+' is accepted"),
        }
    }
    sym::mark(if a.is_ok() { "ok" } else { "rejected" });
}

/// the digits of a number of each calling code, one length each
fn code_and_some() -> (usize, &'static Cc, String) {
    let d = data();
    let i = sym::split(d.codes.len() as u32) as usize;
    let c = &d.codes[i];
    (i, c, some_digits(c))
}
/// C02: ... with extensions in words or parameters, complete or not.
pub fn c02e() {
    let d = data();
    let i = sym::split(d.codes.len() as u32) as usize;
    let c = &d.codes[i];
    let mut nsn = String::from(&c.example[..c.example.len() - 1]);
    nsn.push(digit());
    let mut t = String::with_capacity(64);
    let f = sym::split(4) as usize;
    if f % 2 == 0 { t.push_str("tel:"); }
    t.push_str(&plus(c, &nsn));
    t.push_str([";ext=", " ext. ", ";a=b;ext=", ["x", "#", ",", " ext", " x "][i % 5]][f]);
    for _ in 0..i % 3 { t.push(char::from(sym::pick(&[48, 49, 57, 32, 35, 45, 46, 97, 59, 61, 120]) as u8)); }
    sym::note(|| t.clone());
    match parse(None, &t) { Ok(n) => { well_formed(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
/// C02: ... for dialling prefixes and calling codes followed by few digits, or too many.
pub fn c02s() {
    let d = data();
    let r = &d.regs[d.hints[sym::split(d.hints.len() as u32) as usize]];
    let f = sym::split(6) as usize;
    let mut t = String::with_capacity(40);
    t.push_str(r.cs);
    let n = [0, 1, 2, 3, 17, 18][f];
    for _ in 0..n { t.push(digit()); }
    sym::note(|| format!("{} {t}", r.id));
    match parse(r.hint, &t) { Ok(n) => { well_formed(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
fn is_e164(n: &PhoneNumber) {
    let mut want = String::from("+");
    want.push_str(&n.code().value().to_string());
    for _ in 0..n.national().zeros() { want.push('0'); }
    want.push_str(&n.national().value().to_string());
    sym::check(e164(n) == want && n.to_string() == want, "E.164 form");
}
/// C03: neither extension nor carrier nor the hint shows.
pub fn c03h() {
    let (r, d) = region_and_digits(|r| vec![r.lens[r.lens.len() / 2], r.lens[r.lens.len() - 1] + 2]);
    let mut t = d;
    if r.code % 2 == 0 { t.push_str(" ext. "); t.push(digit()); }
    sym::note(|| format!("{} {t}", r.id));
    if at_start!(r.meta.international_prefix(), &t) { sym::mark("dialling prefix"); return; }
    match parse(r.hint, &t) { Ok(n) => { is_e164(&n); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}
/// Brazilian numbers with trunk prefix and carrier code, dialled nationally
fn with_carrier() -> Option<(String, PhoneNumber)> {
    let mut t = String::from("0");
    for _ in 0..2 { t.push(digit()); }
    t.push_str(["11", "21", "85"][sym::split(3) as usize]);
    for _ in 0..8 + sym::split(2) { t.push(digit()); }
    sym::note(|| t.clone());
    parse(Some(Id::BR), &t).ok().map(|n| (t, n))
}
pub fn c03b() {
    let Some((t, n)) = with_carrier() else { sym::mark("rejected"); return };
    is_e164(&n);
    if let Some(c) = n.carrier() { let c: &str = c.as_ref(); sym::check(c == &t[1..3], "carrier"); sym::mark("ok"); } else { sym::mark("no carrier"); }
}
/// hints for a number of a territory: its own, and some others
fn some_hints(r: &Reg) -> [Option<Id>; 4] {
    let d = data();
    let k = r.code as usize + r.id.as_bytes()[1] as usize;
    [r.hint, d.regs[d.hints[k * 7 % d.hints.len()]].hint, d.regs[d.idds[k % d.idds.len()]].hint, d.regs[d.hints[k * 31 % d.hints.len()]].hint]
}
fn region_plus(lens: impl Fn(&Reg) -> Vec<usize>) -> (&'static Reg, String, String) {
    let (r, d) = region_and_digits(lens);
    let mut t = String::with_capacity(40);
    t.push('+');
    t.push_str(r.cs);
    t.push_str(&d);
    (r, d, t)
}
/// C04: ... under any hint.
pub fn c04h() {
    let (r, _, t) = region_plus(|r| r.lens.clone());
    sym::note(|| format!("{} {t}", r.id));
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let e = e164(&n);
    for h in some_hints(r) {
        match parse(h, &e) {
            Ok(m) => sym::check(same(&m, &n) && m.extension().is_none(), "E.164 form of a valid number parses to a different number under a hint"),
            Err(_) => sym::check(false, "E.164 form of a valid number is rejected under a hint"),
        }
    }
    sym::mark("ok");
}
/// C05: ... with an extension.
pub fn c05x() {
    let (_, c, nsn) = code_and_some();
    let e = digits(1 + c.code as usize % 7);
    let mut t = plus(c, &nsn);
    t.push_str(";ext=");
    t.push_str(&e);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() || n.extension().is_none() { sym::mark("invalid"); return; }
    let mut all = String::with_capacity(40);
    all.push_str(c.s);
    all.push_str(&n.national().to_string());
    all.push_str(&e);
    let i = n.format().mode(Mode::International).to_string();
    sym::note(|| i.clone());
    sym::check(i.starts_with('+') && only_digits(&i) == all, "digits of the international form");
    let r = n.format().mode(Mode::Rfc3966).to_string();
    sym::note(|| r.clone());
    sym::check(r.starts_with("tel:+") && only_digits(&r) == all, "digits of the RFC 3966 form");
    let l = n.format().mode(Mode::National).to_string();
    sym::note(|| l.clone());
    if rewrites(DATABASE.by_code(&c.code).unwrap()[0]) { sym::mark("rewritten"); return; }
    sym::check(only_digits(&l).ends_with(&all[c.s.len()..]), "national form lost digits");
    sym::mark("ok");
}
/// C05: ... with a carrier code.
pub fn c05b() {
    let Some((_, n)) = with_carrier() else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let nat = n.national().to_string();
    let l = n.format().mode(Mode::National).to_string();
    sym::note(|| l.clone());
    let l = only_digits(&l);
    sym::check(l.ends_with(&nat), "national form lost digits");
    let m = DATABASE.by_code(&55).unwrap()[0];
    let carrier = n.carrier().map(|c| c.to_string()).unwrap_or_default();
    sym::check(declared_prefixes(m, &carrier).iter().any(|d| *d == l[..l.len() - nat.len()]), "national form adds digits");
    let i = n.format().mode(Mode::International).to_string();
    sym::check(only_digits(&i) == plus(data().codes.iter().find(|c| c.code == 55).unwrap(), &nat)[1..], "digits of the international form");
    sym::mark(if carrier.is_empty() { "no carrier" } else { "ok" });
}
/// C06: ... with an extension.
pub fn c06x() {
    let (i, c, nsn) = code_and_some();
    let e = digits(1 + c.code as usize % 7);
    let mut t = plus(c, &nsn);
    t.push_str(";ext=");
    t.push_str(&e);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let d = data();
    let h = [None, d.regs[d.hints[i * 5 % d.hints.len()]].hint][i % 2];
    for m in [Mode::International, Mode::Rfc3966] {
        let x = n.format().mode(m).to_string();
        sym::note(|| x.clone());
        match parse(h, &x) {
            Ok(m) => sym::check(same(&m, &n) && m.extension().is_some_and(|x| { let x: &str = x.as_ref(); x == e }), "a form with an extension parses to a different number"),
            Err(_) => sym::check(false, "a form with an extension is rejected"),
        }
    }
    sym::mark("ok");
}
/// C06: ... under any hint.
pub fn c06h() {
    let (r, _, t) = region_plus(|r| vec![r.lens[r.lens.len() / 2]]);
    sym::note(|| format!("{} {t}", r.id));
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() { sym::mark("invalid"); return; }
    let h = some_hints(r);
    for m in [Mode::International, Mode::Rfc3966] {
        let x = n.format().mode(m).to_string();
        sym::note(|| x.clone());
        for h in &h[..2] {
            match parse(*h, &x) { Ok(m) => sym::check(same(&m, &n), "a form parses to a different number under a hint"), Err(_) => sym::check(false, "a form is rejected under a hint") }
        }
    }
    sym::mark("ok");
}
/// C08: hints that share the calling code.
pub fn c08s() {
    let (r, d) = region_and_digits(|r| { let mut v = r.lens.clone(); for x in [r.lens[0] - 1, r.lens[r.lens.len() / 2].max(5) - 3, r.lens[r.lens.len() - 1] + 1] { if !v.contains(&x) { v.push(x); } } v });
    let mut t = String::with_capacity(40);
    t.push('+');
    t.push_str(r.cs);
    t.push_str(&d);
    sym::note(|| format!("{} {t}", r.id));
    agree(&t, &[r.hint]);
}
/// C08: ... however the rest is written.
pub fn c08w() {
    let (r, d) = region_and_digits(|r| vec![r.lens[r.lens.len() / 2]]);
    let mut t = String::with_capacity(40);
    t.push_str(["+", "++", "\u{FF0B}", " +", "tel:+"][r.code as usize % 5]);
    t.push_str(r.cs);
    t.push_str(["-", " ", "", "."][r.code as usize % 4]);
    t.push_str(&d);
    if r.code % 3 == 0 { t.push_str(";ext="); t.push(digit()); }
    sym::note(|| format!("{} {t}", r.id));
    agree(&t, &some_hints(r)[..2]);
}
/// C09: numbers written nationally.
pub fn c09h() {
    let (r, t) = region_and_digits(|r| r.lens.clone());
    sym::note(|| format!("{} {t}", r.id));
    if at_start!(r.meta.international_prefix(), &t) { sym::mark("dialling prefix"); return; }
    let Ok(n) = parse(r.hint, &t) else { sym::mark("rejected"); return };
    valid_agrees(&n, data().codes.iter().find(|c| c.code == r.code).unwrap());
}
/// whether one of the formats writes digits of its own, or a prefix that the territory does not declare
fn literal(m: &Metadata) -> bool { m.national_prefix().is_none() && m.formats().iter().any(|f| f.national_prefix().is_some_and(|r| r.replace("$1", "").chars().any(|c| c.is_ascii_digit()))) || m.formats().iter().any(|f| { let f = f.format(); f.split('$').enumerate().any(|(i, p)| p.chars().skip((i > 0) as usize).any(|c| c.is_ascii_digit())) }) }
/// C22: the national form of a number parses back under the hint of its own territory.
pub fn c22() {
    let (r, _, t) = region_plus(|r| r.lens.clone());
    sym::note(|| format!("{} {t}", r.id));
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() || n.metadata(&DATABASE).is_none_or(|m| m.id() != r.id) { sym::mark("invalid"); return; }
    if literal(DATABASE.by_code(&r.code).unwrap()[0]) { sym::mark("rewritten"); return; }
    let x = n.format().mode(Mode::National).to_string();
    sym::note(|| x.clone());
    // national digits that the territory takes for a dialling prefix or its calling code
    let w = only_digits(&x);
    if at_start!(r.meta.international_prefix(), &w) { sym::mark("dialling prefix"); return; }
    if w == n.national().to_string() && at_start!(r.meta.national_prefix_for_parsing(), &w) { sym::mark("trunk prefix"); return; }
    match parse(r.hint, &x) { Ok(m) => sym::check(same(&m, &n), "the national form parses to a different number"), Err(_) => sym::check(false, "the national form is rejected") }
    sym::mark("ok");
}
/// C22: ... with an extension.
pub fn c22x() {
    let (r, _, mut t) = region_plus(|r| vec![r.lens[r.lens.len() / 2]]);
    let e = digits(1 + r.code as usize % 7);
    t.push_str(";ext=");
    t.push_str(&e);
    sym::note(|| format!("{} {t}", r.id));
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    if !n.is_valid() || n.metadata(&DATABASE).is_none_or(|m| m.id() != r.id) { sym::mark("invalid"); return; }
    if literal(DATABASE.by_code(&r.code).unwrap()[0]) { sym::mark("rewritten"); return; }
    let x = n.format().mode(Mode::National).to_string();
    sym::note(|| x.clone());
    let w = only_digits(&x);
    if at_start!(r.meta.international_prefix(), &w) { sym::mark("dialling prefix"); return; }
    if w.len() == n.national().to_string().len() + e.len() && at_start!(r.meta.national_prefix_for_parsing(), &w) { sym::mark("trunk prefix"); return; }
    match parse(r.hint, &x) {
        Ok(m) => sym::check(same(&m, &n) && n.extension().is_some_and(|x| { let x: &str = x.as_ref(); x == e }), "the national form with an extension parses to a different number"),
        Err(_) => sym::check(false, "the national form with an extension is rejected"),
    }
    sym::mark("ok");
}
/// C24: the kind of number the metadata describes
fn kind(m: &Metadata, nat: &str) -> Type {
    let d = m.descriptors();
    let is = |x: Option<&phonenumber::metadata::Descriptor>| x.is_some_and(|d| d.is_match(nat));
    if !d.general().is_match(nat) { return Type::Unknown; }
    let special = [(d.premium_rate(), Type::PremiumRate), (d.toll_free(), Type::TollFree), (d.shared_cost(), Type::SharedCost), (d.voip(), Type::Voip), (d.personal_number(), Type::PersonalNumber), (d.pager(), Type::Pager), (d.uan(), Type::Uan), (d.voicemail(), Type::Voicemail)];
    for (x, t) in special { if is(x) { return t; } }
    match (is(d.fixed_line()), is(d.mobile())) { (true, true) => Type::FixedLineOrMobile, (true, false) => Type::FixedLine, (false, true) => Type::Mobile, _ => Type::Unknown }
}
pub fn c24() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    let want = n.metadata(&DATABASE).map_or(Type::Unknown, |m| kind(m, &n.national().to_string()));
    sym::check(n.number_type() == want, "type differs from the kind the metadata describes");
    sym::mark(if want == Type::Unknown { "unknown" } else { "ok" });
}
/// C05: ... with a format of the caller's.
pub fn c05w() {
    let (i, c, nsn) = code_and_some();
    let t = plus(c, &nsn);
    let d = data();
    let ms = [d.regs[c.regs[0]].meta, d.regs[(i * 7 + 3) % d.regs.len()].meta, d.regs[(i * 31 + 11) % d.regs.len()].meta];
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    let all = plus(c, &n.national().to_string());
    for m in ms {
        let Some(f) = m.formats().get(i % 5).or(m.formats().first()) else { continue };
        // only formats that write the groups of their pattern in order
        if !f.format().split('$').enumerate().all(|(k, p)| if k == 0 { only_digits(p).is_empty() } else { only_digits(p) == k.to_string() }) || f.format().matches('$').count() + 1 != f.pattern().captures_len() { continue; }
        for mode in [Mode::International, Mode::Rfc3966] {
            let x = n.format().mode(mode).with(f).to_string();
            sym::note(|| x.clone());
            sym::check(only_digits(&x) == all[1..], "digits of the form with a given format");
        }
        sym::check(n.format().with(f).to_string() == all, "E.164 form with a given format");
        sym::mark("ok");
    }
}
/// C25: numbers survive serialisation.
pub fn c25() {
    let (_, c, nsn) = code_and_some();
    let mut t = plus(c, &nsn);
    if c.code % 2 == 0 { t.push_str(";ext="); t.push_str(&digits(1 + c.code as usize % 7)); }
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    stored(&n);
}
pub fn c25b() {
    let Some((_, n)) = with_carrier() else { sym::mark("rejected"); return };
    stored(&n);
}
fn stored(n: &PhoneNumber) {
    let Ok(j) = store::write(n) else { sym::check(false, "cannot be serialised"); return };
    sym::note(|| format!("{j:?}"));
    match store::read::<PhoneNumber>(&j) {
        Ok(m) => sym::check(m == *n && m.code().source() == n.code().source() && m.to_string() == n.to_string(), "a number changes when it is serialised"),
        Err(_) => sym::check(false, "a serialised number cannot be read"),
    }
    sym::mark("ok");
}
/// C25: ... and so do national numbers, and regions.
pub fn c25n() {
    const BYTE: [u32; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = i as u32; i += 1; } t };
    let n = phonenumber::NationalNumber::new((sym::pick(&BYTE) as u64) << 40 | (sym::pick(&BYTE) as u64) << 16 | sym::pick(&BYTE) as u64, sym::pick(&BYTE) as u8);
    let Ok(n) = n else { sym::check(false, "a value below 2^56 is rejected"); return };
    let Ok(j) = store::write(&n) else { sym::check(false, "cannot be serialised"); return };
    match store::read::<phonenumber::NationalNumber>(&j) { Ok(m) => sym::check(m == n && m.value() == n.value() && m.zeros() == n.zeros(), "a national number changes"), Err(_) => sym::check(false, "a serialised national number cannot be read") }
    sym::mark("ok");
}
/// C26: the text the metadata's formats prescribe
fn written(n: &PhoneNumber, national: bool) -> Option<String> {
    let nat = n.national().to_string();
    let m = *DATABASE.by_code(&n.code().value())?.first()?;
    let forms = if national || m.international_formats().is_empty() { m.formats() } else { m.international_formats() };
    let f = forms.iter().find(|f| f.leading_digits().last().is_none_or(|l| at_start!(Some(l), &nat)) && f.pattern().find(&nat).is_some_and(|x| x.start() == 0 && x.end() == nat.len()));
    let Some(f) = f else { return Some(nat) };
    let mut form = String::from(f.format());
    let carrier = n.carrier().map(|c| c.to_string());
    if national {
        let rule = match (&carrier, f.domestic_carrier()) { (Some(_), Some(r)) => Some(r), _ => f.national_prefix() };
        if let (Some(rule), Some(at)) = (rule, form.find('$')) {
            let group = String::from(&form[at..at + 2]);
            let rule = rule.replace("$NP", m.national_prefix().unwrap_or("")).replace("$FG", "$1").replace("$CC", "$C");
            form = format!("{}{}{}", &form[..at], rule.replace("$1", &group), &form[at + 2..]);
        }
    }
    let groups = f.pattern().captures(&nat)?;
    let mut out = String::with_capacity(48);
    let mut b = form.chars();
    while let Some(ch) = b.next() {
        if ch != '$' { out.push(ch); continue; }
        match b.next()? {
            'C' => out.push_str(carrier.as_deref().unwrap_or("")),
            d => if let Some(g) = groups.get(d.to_digit(10)? as usize) { out.push_str(g.as_str()) },
        }
    }
    Some(out)
}
fn as_prescribed(n: &PhoneNumber) {
    let (Some(i), Some(l)) = (written(n, false), written(n, true)) else { sym::check(false, "no text prescribed"); return };
    let ext = n.extension().map(|e| e.to_string());
    let m = DATABASE.by_code(&n.code().value()).unwrap()[0];
    let tail = ext.as_ref().map(|e| format!("{}{e}", m.preferred_extension_prefix().unwrap_or(" ext. "))).unwrap_or_default();
    let code = n.code().value().to_string();
    let x = n.format().mode(Mode::International).to_string();
    sym::note(|| format!("{x} not +{code} {i}{tail}"));
    sym::check(x == format!("+{code} {i}{tail}"), "the international form is not the one the metadata prescribes");
    let x = n.format().mode(Mode::National).to_string();
    sym::note(|| format!("{x} not {l}{tail}"));
    sym::check(x == format!("{l}{tail}"), "the national form is not the one the metadata prescribes");
    let mut u = format!("tel:+{code}-");
    let mut last = ' ';
    for ch in i.chars() {
        let ch = if "- .()[]/~x".contains(ch) { '-' } else { ch };
        if ch != '-' || last != '-' { u.push(ch); }
        last = ch;
    }
    if let Some(e) = ext { u.push_str(";ext="); u.push_str(&e); }
    let x = n.format().mode(Mode::Rfc3966).to_string();
    sym::note(|| format!("{x} not {u}"));
    sym::check(x == u, "the RFC 3966 form is not the one the metadata prescribes");
    sym::mark("ok");
}
pub fn c26() {
    let (c, nsn) = code_and_digits(|c| c.lens.clone());
    let t = plus(c, &nsn);
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    as_prescribed(&n);
}
/// C26: ... with an extension.
pub fn c26x() {
    let (_, c, nsn) = code_and_some();
    let mut t = plus(c, &nsn);
    t.push_str(";ext=");
    t.push_str(&digits(1 + c.code as usize % 7));
    sym::note(|| t.clone());
    let Ok(n) = parse(None, &t) else { sym::mark("rejected"); return };
    as_prescribed(&n);
}
/// C26: ... and with a carrier code.
pub fn c26b() {
    let Some((_, n)) = with_carrier() else { sym::mark("rejected"); return };
    as_prescribed(&n);
}
/// C27: what cannot be a number is rejected, and why.
pub fn c27() {
    use phonenumber::ParseError as E;
    let d = data();
    let k = 2 + sym::split(17) as usize;
    let t = digits(k);
    sym::note(|| t.clone());
    let bare = !t.starts_with("00");
    if bare { match parse(None, &t) { Err(E::InvalidCountryCode) => {} Err(_) => sym::check(false, "rejected for another reason"), Ok(_) => sym::check(false, "digits without calling code are accepted") } }
    let mut p = String::from("+");
    p.push_str(&t);
    let mut unknown = !t.starts_with('0');
    for c in &d.codes { unknown &= !t.starts_with(&*c.code.to_string()); }
    if unknown {
        match parse(None, &p) {
            Err(E::InvalidCountryCode) => {}
            Err(_) => sym::check(k < 3, "rejected for another reason"),
            Ok(_) => sym::check(false, "an unknown calling code is accepted"),
        }
    }
    sym::mark("ok");
}
/// C27: ... too short or too long after any calling code.
pub fn c27l() {
    let d = data();
    let c = &d.codes[sym::split(d.codes.len() as u32) as usize];
    use phonenumber::ParseError as E;
    let t = plus(c, &digits(1));
    sym::note(|| t.clone());
    match parse(None, &t) { Err(E::NoNumber | E::TooShortNsn) => {} Err(_) => sym::check(false, "rejected for another reason"), Ok(_) => sym::check(false, "one digit is accepted") }
    let mut t = plus(c, &digits(12));
    t.push_str("41414141414141414141");
    sym::note(|| t.clone());
    match parse(None, &t) { Err(E::TooLong) => {} Err(_) => sym::check(false, "rejected for another reason"), Ok(_) => sym::check(false, "32 digits are accepted") }
    sym::mark("ok");
}
/// C01: digits alone and after a plus, which may begin with a dialling prefix.
pub fn c01z() {
    let k = 1 + sym::split(5) as usize;
    let t = digits(k);
    let mut p = String::from("+");
    p.push_str(&t);
    for t in [&t, &p] {
        sym::note(|| t.clone());
        if let (Ok(n), true) = (parse(None, t), k < 5) { let _ = (n.is_valid(), n.number_type(), n.to_string()); }
    }
    sym::mark("ok");
}
