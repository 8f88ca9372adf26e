//! Properties of metadata and databases.
use super::data::*;
use super::sym;
use phonenumber::country::Id;
use phonenumber::metadata::{Database, loader};
use phonenumber::{Mode, Type, parse_with};
use std::io::Cursor;

fn ch(t: &[u32]) -> char { char::from_u32(sym::pick(t)).unwrap_or('?') }
/// what may stand in the texts of a document
const VAL: [u32; 24] = ['0' as u32, '1' as u32, '5' as u32, '9' as u32, '[' as u32, ']' as u32, '|' as u32, '\\' as u32, 'd' as u32, '$' as u32, ' ' as u32, ',' as u32, '-' as u32, '(' as u32, '?' as u32, ':' as u32, ')' as u32,
    '{' as u32, '}' as u32, '~' as u32, 'A' as u32, 'N' as u32, '/' as u32, '=' as u32];
fn val(n: usize) -> String { let mut s = String::with_capacity(n + 4); for _ in 0..n { s.push(ch(&VAL)); } s }
const ATTRS: [&str; 14] = ["id", "countryCode", "internationalPrefix", "preferredInternationalPrefix", "nationalPrefix", "preferredExtnPrefix", "nationalPrefixForParsing", "nationalPrefixTransformRule",
    "mainCountryForCode", "leadingDigits", "mobileNumberPortableRegion", "nationalPrefixFormattingRule", "nationalPrefixOptionalWhenFormatting", "carrierCodeFormattingRule"];
const DESCS: [&str; 14] = ["generalDesc", "fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "emergency", "voicemail", "noInternationalDialling", "noInternationalDialling"];
fn attr(t: &mut String, k: &str, v: &str) { t.push(' '); t.push_str(k); t.push_str("=\""); t.push_str(v); t.push('"'); }
fn elem(t: &mut String, k: &str, v: &str) { t.push('<'); t.push_str(k); t.push('>'); t.push_str(v); t.push_str("</"); t.push_str(k); t.push('>'); }
fn load(t: &str) -> Result<Vec<loader::Metadata>, ()> { loader::load(Cursor::new(t)).map_err(|_| ()) }
const HEAD: &str = "<!-- c -->\n<!DOCTYPE phoneNumberMetadata [ <!ELEMENT x (y)> ]>\n<phoneNumberMetadata>\n <territories>\n";
const TAIL: &str = "</territory></territories>\n</phoneNumberMetadata>\n";
fn desc<'a>(m: &'a loader::Metadata, k: usize) -> &'a Option<loader::Descriptor> {
    match k { 0 => &m.general, 1 => &m.fixed_line, 2 => &m.mobile, 3 => &m.toll_free, 4 => &m.premium_rate, 5 => &m.shared_cost, 6 => &m.personal_number, 7 => &m.voip, 8 => &m.pager, 9 => &m.uan, 10 => &m.emergency,
        11 => &m.voicemail, _ => &m.no_international }
}
/// C18: attributes of a territory
pub fn c18() {
    // one attribute, or none, is missing
    let gone = sym::split(15) as usize;
    let mut t = String::with_capacity(1200);
    t.push_str(HEAD);
    t.push_str("<territory");
    let mut vs: [String; 14] = Default::default();
    for k in 0..14 {
        vs[k] = match k { 1 => digits(3), 8 | 10 | 12 => if gone == 14 { "false" } else { "true" }.to_string(), 0 => val(2), _ => val(3) };
    }
    for k in 0..14 { let k = if gone % 2 == 0 { k } else { 13 - k }; if k != gone { attr(&mut t, ATTRS[k], &vs[k]); } }
    t.push('>');
    t.push_str(TAIL);
    sym::note(|| t.clone());
    match load(&t) {
        Err(_) => sym::check(false, "the document is rejected"),
        Ok(m) => {
            sym::check(m.len() == 1, "number of territories");
            let m = &m[0];
            let texts = [(0, &m.id), (2, &m.international_prefix), (3, &m.preferred_international_prefix), (4, &m.national_prefix), (5, &m.preferred_extension_prefix), (6, &m.national_prefix_for_parsing),
                (7, &m.national_prefix_transform_rule), (9, &m.leading_digits)];
            for (k, x) in texts { sym::check(match x { None => k == gone, Some(x) => k != gone && *x == vs[k] }, "text attribute of a territory"); }
            sym::check(match m.country_code { None => gone == 1, Some(c) => gone != 1 && c == vs[1].bytes().fold(0u16, |a, b| 10 * a + (b - 48) as u16) }, "calling code");
            sym::check(m.main_country_for_code == (gone < 14 && gone != 8), "main country");
            sym::check(m.mobile_number_portable == (gone < 14 && gone != 10), "mobile number portability");
            for k in 0..13 { sym::check(desc(m, k).is_none(), "a descriptor out of nothing"); }
            sym::check(m.formats.is_empty() && m.international_formats.is_empty(), "a format out of nothing");
            sym::check([&m.short_code, &m.standard_rate, &m.carrier].iter().all(|d| d.is_none()), "a descriptor out of nothing");
            sym::mark("ok");
        }
    }
}

/// C18: descriptors, formats and what they inherit.
pub fn c18d() {
    let f = sym::split(14) as usize;
    let k = sym::split(4) as usize;
    let mut t = String::with_capacity(1500);
    t.push_str(HEAD);
    t.push_str("<territory");
    let (id, rule, carrier) = (val(2), val(3), val(3));
    attr(&mut t, "id", &id);
    if k & 1 != 0 { attr(&mut t, "nationalPrefixFormattingRule", &rule); attr(&mut t, "carrierCodeFormattingRule", &carrier); }
    if k & 2 != 0 { attr(&mut t, "nationalPrefixOptionalWhenFormatting", "true"); }
    t.push_str(">\n <references><sourceUrl>x</sourceUrl></references>\n");
    let (pat, ex, d1, d2, d3) = (val(4), digits(3), digit(), digit(), digit());
    let desc_at = |t: &mut String| {
        t.push('<'); t.push_str(DESCS[f]); t.push('>');
        if f != 13 { elem(t, "nationalNumberPattern", &pat); t.push_str(" <!-- c --> "); elem(t, "exampleNumber", &ex); }
        t.push_str("<possibleLengths national=\"1"); t.push(d1); t.push_str(",2"); t.push(d2); t.push('"');
        if k == 1 { t.push_str(" localOnly=\"[4-6],"); t.push(d3); t.push('"'); }
        t.push_str("/></"); t.push_str(DESCS[f]); t.push_str(">\n");
    };
    if k < 2 { desc_at(&mut t); }
    // three formats: everything declared; nothing; no international one
    let (p1, p2, r1, c1, l1, l2, f1, f2, i1) = (val(3), val(3), val(2), val(2), val(2), val(3), val(3), val(2), val(3));
    sym::assume(i1 != "NA");
    t.push_str("<availableFormats>\n<numberFormat");
    attr(&mut t, "pattern", &p1); attr(&mut t, "nationalPrefixFormattingRule", &r1); attr(&mut t, "carrierCodeFormattingRule", &c1); attr(&mut t, "nationalPrefixOptionalWhenFormatting", "false");
    t.push_str(">\n"); elem(&mut t, "leadingDigits", &l1); t.push('\n'); elem(&mut t, "leadingDigits", &l2); elem(&mut t, "format", &f1); elem(&mut t, "intlFormat", &i1);
    t.push_str("</numberFormat><numberFormat"); attr(&mut t, "pattern", &p2); t.push('>'); elem(&mut t, "format", &f2);
    t.push_str("</numberFormat>\n<numberFormat"); attr(&mut t, "pattern", &p2); t.push('>'); elem(&mut t, "leadingDigits", &l2); elem(&mut t, "format", &f1); elem(&mut t, "intlFormat", "NA");
    t.push_str("</numberFormat></availableFormats>");
    if k >= 2 { desc_at(&mut t); }
    t.push_str("</territory><territory"); attr(&mut t, "id", &id); t.push('>');
    t.push_str(TAIL);
    sym::note(|| t.clone());
    let Ok(m) = load(&t) else { sym::check(false, "the document is rejected"); return };
    sym::check(m.len() == 2, "number of territories");
    let n = &m[1];
    let m = &m[0];
    sym::check(m.id.as_deref() == Some(&id) && n.id.as_deref() == Some(&id), "identifier");
    sym::check(n.formats.is_empty() && n.international_formats.is_empty() && (0..13).all(|i| desc(n, i).is_none()), "one territory inherits from another");
    for i in 0..13 {
        let x = desc(m, i);
        if i != f.min(12) { sym::check(x.is_none(), "another descriptor"); continue; }
        let Some(x) = x else { sym::check(false, "descriptor lost"); return };
        sym::check(match &x.national_number { None => f == 13, Some(p) => f != 13 && *p == pat }, "national number pattern");
        sym::check(match &x.example { None => f == 13, Some(p) => f != 13 && *p == ex }, "example");
        let n = |c: char| c as u16 - 48;
        sym::check(x.possible_length.len() == 2 && x.possible_length[0] == 10 + n(d1) && x.possible_length[1] == 20 + n(d2), "possible lengths");
        let l = &x.possible_local_length;
        sym::check(if k == 1 { l.len() == 4 && l[..3] == [4, 5, 6] && l[3] == n(d3) } else { l.is_empty() }, "possible local lengths");
    }
    let (nat, int) = (&m.formats, &m.international_formats);
    sym::check(nat.len() == 3 && int.len() == 2, "number of formats");
    let rule = if k & 1 != 0 { Some(&rule[..]) } else { None };
    let carrier = if k & 1 != 0 { Some(&carrier[..]) } else { None };
    let is = |x: &loader::Format, p: &str, f: &str, l: &[&str], r: Option<&str>, o: bool, c: Option<&str>| {
        sym::check(x.pattern.as_deref() == Some(p), "pattern of a format");
        sym::check(x.format.as_deref() == Some(f), "template of a format");
        sym::check(x.leading_digits.len() == l.len() && x.leading_digits.iter().zip(l).all(|(a, b)| a == b), "leading digits of a format");
        sym::check(x.national_prefix_formatting_rule.as_deref() == r, "national prefix rule of a format");
        sym::check(x.national_prefix_optional_when_formatting == o, "optional national prefix of a format");
        sym::check(x.domestic_carrier.as_deref() == c, "carrier rule of a format");
    };
    is(&nat[0], &p1, &f1, &[&l1, &l2], Some(&r1), false, Some(&c1));
    is(&int[0], &p1, &i1, &[&l1, &l2], Some(&r1), false, Some(&c1));
    is(&nat[1], &p2, &f2, &[], rule, k & 2 != 0, carrier);
    is(&int[1], &p2, &f2, &[], rule, k & 2 != 0, carrier);
    is(&nat[2], &p2, &f1, &[&l2], rule, k & 2 != 0, carrier);
    sym::mark("ok");
}

/// possible lengths, as the format of the documents describes them: numbers and ranges
const PLAIN: [u32; 20] = ['0' as u32, '1' as u32, '2' as u32, '3' as u32, '4' as u32, '5' as u32, '6' as u32, '7' as u32, '8' as u32, '9' as u32, '[' as u32, ']' as u32, '-' as u32, ',' as u32, ' ' as u32, 'x' as u32, '+' as u32, '.' as u32, '(' as u32, 0x7E];
fn lengths(s: &[u8]) -> Option<Vec<u16>> {
    let blank = |c: u8| c == b' ';
    let trim = |mut s: &[u8]| { let (mut a, mut b) = (0, s.len()); while a < b && blank(s[a]) { a += 1; } while a < b && blank(s[b - 1]) { b -= 1; } s = &s[a..b]; (a, b, s.len()) };
    let num = |s: &[u8]| -> Option<u16> {
        let s = if s.first() == Some(&b'+') { &s[1..] } else { s };
        let mut n = 0u32;
        if s.is_empty() { return None; }
        for &c in s { if !(48..58).contains(&c) { return None; } n = 10 * n + (c - 48) as u32; }
        if n < 65536 { Some(n as u16) } else { None }
    };
    let mut r = vec![];
    let mut i = 0;
    loop {
        let mut j = i;
        while j < s.len() && s[j] != b',' { j += 1; }
        let part = &s[i..j];
        let (a, b, _) = trim(part);
        let p = &part[a..b];
        if p.first() == Some(&b'[') {
            if p.len() < 2 || p[p.len() - 1] != b']' { return None; }
            let q = &p[1..p.len() - 1];
            let m = q.iter().position(|&c| c == b'-')?;
            let (x, y) = (num(&q[..m])?, num(&q[m + 1..])?);
            let mut v = x;
            while v <= y { r.push(v); v += 1; }
        } else { r.push(num(p)?); }
        if j == s.len() { return Some(r); }
        i = j + 1;
    }
}
const LEN: [u32; 8] = ['1' as u32, '3' as u32, '[' as u32, ']' as u32, '-' as u32, ',' as u32, ' ' as u32, 'x' as u32];
fn doc(lens: &str, code: &str, flag: &str) -> String {
    let mut t = String::with_capacity(400);
    t.push_str("<phoneNumberMetadata><territories><territory id=\"XX\"");
    attr(&mut t, "countryCode", code);
    attr(&mut t, "mainCountryForCode", flag);
    t.push_str("><generalDesc><nationalNumberPattern>1</nationalNumberPattern><possibleLengths");
    attr(&mut t, "national", lens);
    t.push_str("/></generalDesc>");
    t.push_str(TAIL);
    t
}
const LENS: [&str; 8] = ["[3-7]", "12", "[1-3],5", " 7 , 9", "[10-12]", "4,[2-3] ,65535", "[],1", "1"];
/// C18: possible lengths
pub fn c18l() {
    // up to three of some characters, or any character in the place of another
    let f = sym::split(11) as usize;
    let mut v2 = String::with_capacity(20);
    if f < 3 { for i in 0..f + 1 { if i < f { v2.push(char::from(LEN[sym::split(8) as usize] as u8)); } else { v2.push(ch(&LEN)); } } }
    else {
        let s = LENS[f - 3];
        let k = sym::split(s.len() as u32) as usize;
        v2.push_str(&s[..k]);
        v2.push(ch(&PLAIN));
        v2.push_str(&s[k + 1..]);
    }
    let t = doc(&v2, "1", "true");
    sym::note(|| t.clone());
    match (load(&t), lengths(v2.as_bytes())) {
        (Err(_), None) => sym::mark("rejected"),
        (Ok(m), Some(l)) => { sym::check(m[0].general.as_ref().is_some_and(|g| g.possible_length == l), "possible lengths"); sym::mark("ok"); }
        (Ok(_), None) => sym::check(false, "malformed possible lengths are accepted"),
        (Err(_), Some(_)) => sym::check(false, "possible lengths are rejected"),
    }
}
/// C18: calling codes and booleans
pub fn c18n() {
    let f = sym::split(13) as usize;
    let (mut code, mut flag) = (String::from("1"), String::from("true"));
    if f < 6 { code = String::with_capacity(8); for _ in 0..f { code.push(ch(&[48, 49, 53, 54, 57, '+' as u32, '-' as u32, ' ' as u32, 'x' as u32])); } }
    else { flag = String::with_capacity(8); for _ in 0..f - 6 { flag.push(ch(&['t' as u32, 'r' as u32, 'u' as u32, 'e' as u32, 'f' as u32, 'a' as u32, 'l' as u32, 's' as u32, 'T' as u32, '1' as u32, ' ' as u32])); } }
    let t = doc("4", &code, &flag);
    sym::note(|| t.clone());
    let digits = code.strip_prefix('+').unwrap_or(&code);
    let n = if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) { None } else { let v = digits.bytes().fold(0u32, |a, b| 10 * a + (b - 48) as u32); if v < 65536 { Some(v as u16) } else { None } };
    let b = if flag == "true" { Some(true) } else if flag == "false" { Some(false) } else { None };
    match (load(&t), n.zip(b)) {
        (Ok(m), Some((n, b))) => { sym::check(m[0].country_code == Some(n), "calling code"); sym::check(m[0].main_country_for_code == b, "main country"); sym::mark("ok"); }
        (Err(_), None) => sym::mark("rejected"),
        (Ok(_), None) => sym::check(false, "a malformed value is accepted"),
        (Err(_), Some(_)) => sym::check(false, "a value is rejected"),
    }
}
const SMALL: &str = "<phoneNumberMetadata><territories><territory id=\"AC\" countryCode=\"247\"><!-- a --><availableFormats><numberFormat pattern=\"(\\d)\"><leadingDigits>1</leadingDigits><format>$1</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>\\d</nationalNumberPattern><possibleLengths national=\"[1-2],4\" localOnly=\"3\"/></generalDesc></territory></territories></phoneNumberMetadata>";
/// C18: documents that end too early are errors.
pub fn c18e() {
    let k = sym::split(SMALL.len() as u32 + 1) as usize;
    let mut t = String::from(&SMALL[..k]);
    // one more character of any kind
    let more = sym::split(2) == 1;
    if more { t.push(ch(&BYTES)); }
    sym::note(|| t.clone());
    let whole = k == SMALL.len() || k + 1 == SMALL.len() && t.ends_with("</phoneNumberMetadata>");
    let r = load(&t);
    if whole { sym::check(r.is_ok_and(|m| m.len() == 1), "the document is rejected"); sym::mark("ok"); }
    else { sym::check(r.is_err(), "an incomplete document is accepted"); sym::mark("rejected"); }
}
const BYTES: [u32; 127] = { let mut t = [0; 127]; let mut i = 0; while i < 127 { t[i] = i as u32 + 1; i += 1; } t };
/// C18: one character replaced by any other never panics.
pub fn c18b() {
    let k = sym::split(SMALL.len() as u32) as usize;
    let mut t = String::from(&SMALL[..k]);
    t.push(ch(&BYTES));
    t.push_str(&SMALL[k + 1..]);
    sym::note(|| t.clone());
    match load(&t) { Ok(m) => { sym::check(m.len() <= 1, "territories out of nothing"); sym::mark("ok") } Err(_) => sym::mark("rejected") }
}

fn label(i: usize) -> String { let mut s = String::with_capacity(2); s.push(['a', 'b', 'c', 'd', 'e'][i]); s.push(digit()); s }
/// C19: lookups and iteration over a database of any few territories.
pub fn c19() {
    const IDS: [&str; 4] = ["AA", "BB", "US", "001"];
    const CODES: [u32; 4] = [1, 7, 44, 65535];
    let n = sym::split(4) as usize;
    let mut ids = vec![];
    let mut codes = vec![];
    let mut mains = vec![];
    let mut labels = vec![];
    let mut v = vec![];
    for i in 0..n {
        let id = IDS[if i < 2 { sym::split(4) } else { sym::choose(4) } as usize];
        let code = CODES[sym::choose(if i == 2 { 2 } else { 4 }) as usize] as u16;
        let main = sym::pick(&[0, 1]) == 1;
        let l = label(i);
        let mut m = loader::Metadata::default();
        m.id = Some(id.to_string());
        m.country_code = Some(code);
        m.main_country_for_code = main;
        m.national_prefix = Some(l.clone());
        m.general = Some(loader::Descriptor { national_number: Some("\\d{5}".to_string()), ..Default::default() });
        v.push(m);
        ids.push(id); codes.push(code); mains.push(main); labels.push(l);
    }
    sym::note(|| format!("{ids:?} {codes:?} {mains:?}"));
    let Ok(db) = Database::from(v) else { sym::check(false, "the records are rejected"); return };
    // every record once
    let mut seen = [0u8; 5];
    let mut all = 0;
    for m in db.iter() {
        all += 1;
        for i in 0..n { if m.national_prefix().is_some_and(|p| *p == labels[i]) { seen[i] += 1; sym::check(m.id() == ids[i] && m.country_code() == codes[i] && m.is_main_country_for_code() == mains[i], "record"); } }
    }
    sym::check(all == n && seen[..n].iter().all(|&k| k == 1), "iteration");
    // by identifier
    for id in IDS {
        match db.by_id(id) {
            None => sym::check(!ids.contains(&id), "identifier not found"),
            Some(m) => sym::check(m.id() == id && (0..n).any(|i| ids[i] == id && m.national_prefix() == Some(&labels[i])), "identifier"),
        }
    }
    // by calling code
    for c in CODES {
        let c = c as u16;
        let want: Vec<usize> = (0..n).filter(|&i| codes[i] == c).collect();
        match (db.by_code(&c), db.region(&c)) {
            (None, None) => sym::check(want.is_empty(), "calling code not found"),
            (Some(ms), Some(rs)) => {
                sym::check(ms.len() == want.len() && rs.len() == want.len() && !want.is_empty(), "number of territories of a calling code");
                sym::check(ms.iter().zip(&rs).all(|(m, r)| m.id() == *r), "identifiers of a calling code");
                for &i in &want { sym::check(ms.iter().filter(|m| m.national_prefix() == Some(&labels[i])).count() == 1, "territories of a calling code"); }
                if want.iter().any(|&i| mains[i]) { sym::check(ms[0].is_main_country_for_code(), "main country"); }
            }
            _ => sym::check(false, "calling code"),
        }
    }
    sym::check(db.by_id("ZZ").is_none() && db.by_code(&9).is_none() && db.region(&9).is_none(), "unknown keys");
    sym::mark("ok");
}

/// C18: what a database shows of its records.
pub fn c18x() {
    // one of the parts is missing; or one kind of number
    let gone = sym::split(7) as usize;
    let kind = sym::split(16) as usize;
    let (id, ip, np, ex, tr, fm, nr, dc, en) = (["ZZ", "001", "é", "US"][kind / 4].to_string(), val(3), val(2), val(2), val(3), val(3), val(3), val(3), val(4));
    let (l1, l2, l3) = (digit() as u16, digit() as u16, digit() as u16);
    let code = [1, 44, 999, 65535][kind % 4];
    let (f1, f2, f3) = (sym::pick(&[0, 1]) == 1, sym::pick(&[0, 1]) == 1, sym::pick(&[0, 1]) == 1);
    let some = |k: usize, v: &str| if k == gone { None } else { Some(v.to_string()) };
    let desc = |k: usize, p: &str| loader::Descriptor { national_number: some(k, p), possible_length: vec![l1, l2], possible_local_length: vec![l3], example: Some(en.clone()) };
    let format = |k: usize| loader::Format { pattern: some(k, "(\\d)(\\d)"), format: some(k + 1, &fm), leading_digits: vec!["1".into(), "12|\n 3".into()], national_prefix_formatting_rule: Some(nr.clone()), national_prefix_optional_when_formatting: f1, domestic_carrier: Some(dc.clone()) };
    let mut m = loader::Metadata { id: some(0, &id), country_code: if gone == 1 { None } else { Some(code) }, general: if gone == 2 { None } else { Some(desc(3, "\\d{4}")) },
        international_prefix: Some("00|0[1-3]".into()), preferred_international_prefix: Some(ip.clone()), national_prefix: Some(np.clone()), preferred_extension_prefix: Some(ex.clone()),
        national_prefix_for_parsing: Some("0(\\d)?".into()), national_prefix_transform_rule: Some(tr.clone()), formats: vec![format(4)], international_formats: vec![format(9), format(9)], main_country_for_code: f2,
        leading_digits: Some("[79]".into()), mobile_number_portable: f3, ..Default::default() };
    let special = desc(9, "5\\d{2}");
    *match kind { 0 => &mut m.fixed_line, 1 => &mut m.mobile, 2 => &mut m.toll_free, 3 => &mut m.premium_rate, 4 => &mut m.shared_cost, 5 => &mut m.personal_number, 6 => &mut m.voip, 7 => &mut m.pager, 8 => &mut m.uan,
        9 => &mut m.emergency, 10 => &mut m.voicemail, 11 => &mut m.short_code, 12 => &mut m.standard_rate, 13 => &mut m.carrier, 14 => &mut m.no_international, _ => &mut m.fixed_line } = if kind == 15 { None } else { Some(special) };
    let Ok(db) = Database::from(vec![m]) else { sym::check(gone < 6, "the record is rejected"); sym::mark("rejected"); return };
    sym::check(gone == 6, "an incomplete record is accepted");
    let Some(m) = db.iter().next() else { sym::check(false, "the record is lost"); return };
    sym::check(m.id() == id && m.country_code() == code, "identifier and calling code");
    sym::check(m.international_prefix().is_some_and(|r| r.as_str() == "00|0[1-3]") && m.preferred_international_prefix() == Some(&ip), "international prefixes");
    sym::check(m.national_prefix() == Some(&np) && m.preferred_extension_prefix() == Some(&ex), "national and extension prefix");
    sym::check(m.national_prefix_for_parsing().is_some_and(|r| r.as_str() == "0(\\d)?") && m.national_prefix_transform_rule() == Some(&tr), "prefix for parsing");
    sym::check(m.is_main_country_for_code() == f2 && m.is_mobile_number_portable() == f3 && m.leading_digits().is_some_and(|r| r.as_str() == "[79]"), "flags and leading digits");
    sym::check(m.formats().len() == 1 && m.international_formats().len() == 2, "number of formats");
    for f in m.formats().iter().chain(m.international_formats()) {
        sym::check(f.pattern().as_str() == "(\\d)(\\d)" && f.format() == fm && f.national_prefix() == Some(&nr) && f.domestic_carrier() == Some(&dc) && f.is_national_prefix_optional() == f1, "format");
        sym::check(f.leading_digits().len() == 2 && f.leading_digits()[0].as_str() == "1" && f.leading_digits()[1].is_match("3") && !f.leading_digits()[1].is_match("2"), "leading digits of a format");
    }
    let d = m.descriptors();
    let by_type = [(Type::FixedLine, 0), (Type::Mobile, 1), (Type::TollFree, 2), (Type::PremiumRate, 3), (Type::SharedCost, 4), (Type::PersonalNumber, 5), (Type::Voip, 6), (Type::Pager, 7), (Type::Uan, 8), (Type::Emergency, 9),
        (Type::Voicemail, 10), (Type::ShortCode, 11), (Type::StandardRate, 12), (Type::Carrier, 13), (Type::NoInternational, 14), (Type::FixedLineOrMobile, 0)];
    for (t, k) in by_type { sym::check(d.get(t).is_some() == (k == kind), "kind of numbers"); }
    let named = [d.fixed_line(), d.mobile(), d.toll_free(), d.premium_rate(), d.shared_cost(), d.personal_number(), d.voip(), d.pager(), d.uan(), d.emergency(), d.voicemail(), d.short_code(), d.standard_rate(), d.carrier(), d.no_international()];
    for (k, x) in named.iter().enumerate() {
        sym::check(x.is_some() == (k == kind), "kind of numbers");
        if let Some(x) = x { is_desc(x, l1, l2, l3, &en); sym::check(x.national_number().is_match("512") && !x.national_number().is_match("412") && !x.national_number().is_match("5123"), "number pattern"); }
    }
    let g = d.general();
    is_desc(g, l1, l2, l3, &en);
    sym::check(g.national_number().is_match("5123") && !g.national_number().is_match("51234") && !g.national_number().is_match("512"), "general number pattern");
    sym::mark("ok");
}
fn is_desc(x: &phonenumber::metadata::Descriptor, l1: u16, l2: u16, l3: u16, en: &str) {
    sym::check(x.possible_length() == [l1, l2] && x.possible_local_length() == [l3], "possible lengths");
    sym::check(x.example() == Some(en), "example");
}

const CUSTOM: &str = r#"<phoneNumberMetadata><territories>
<territory id="FR" countryCode="77" internationalPrefix="99" nationalPrefix="8" preferredExtnPrefix=" #">
 <availableFormats><numberFormat pattern="(\d{2})(\d{3})" nationalPrefixFormattingRule="$NP$FG/"><format>$1 $2</format><intlFormat>$1-$2</intlFormat></numberFormat>
 <numberFormat pattern="(\d)(\d{5})"><leadingDigits>3</leadingDigits><format>[$1]$2</format></numberFormat></availableFormats>
 <generalDesc><nationalNumberPattern>[2-5]\d{4,5}</nationalNumberPattern><possibleLengths national="5,6"/></generalDesc>
 <mobile><nationalNumberPattern>2\d{4}</nationalNumberPattern><possibleLengths national="5"/></mobile>
 <fixedLine><nationalNumberPattern>[34]\d{5}</nationalNumberPattern><possibleLengths national="6"/></fixedLine>
 <tollFree><nationalNumberPattern>5\d{4}</nationalNumberPattern><possibleLengths national="5"/></tollFree></territory>
<territory id="IT" countryCode="66" mainCountryForCode="true" internationalPrefix="0[12]"><generalDesc><nationalNumberPattern>\d{5}</nationalNumberPattern><possibleLengths national="5"/></generalDesc>
 <voip><nationalNumberPattern>[1-4]\d{4}</nationalNumberPattern><possibleLengths national="5"/></voip></territory>
<territory id="ES" countryCode="66" leadingDigits="8" nationalPrefixForParsing="6(\d)"><generalDesc><nationalNumberPattern>\d{5}</nationalNumberPattern><possibleLengths national="5"/></generalDesc>
 <pager><nationalNumberPattern>8\d{4}</nationalNumberPattern><possibleLengths national="5"/></pager></territory>
<territory id="001" countryCode="991"><generalDesc><nationalNumberPattern>\d{4}</nationalNumberPattern><possibleLengths national="4"/></generalDesc>
 <uan><nationalNumberPattern>1\d{3}</nationalNumberPattern><possibleLengths national="4"/></uan></territory>
</territories></phoneNumberMetadata>"#;
pub fn custom() -> Database { Database::parse(CUSTOM).unwrap() }
/// C20: numbers are parsed by the rules of the caller's database.
pub fn c20() {
    let db = &data().custom;
    let f = sym::split(5);
    let n = 2 + sym::split(7) as usize;
    let d = digits(n);
    let b = |k: usize| d.as_bytes().get(k).copied().unwrap_or(0);
    let mut t = String::with_capacity(16);
    let general = |s: &str| (s.len() == 5 || s.len() == 6) && (b'2'..=b'5').contains(&s.as_bytes()[0]);
    // the prefix, the calling code, the national digits and the hint
    let (hint, pre, code, came) = match f { 0 => (None, "+77", 77, true), 1 => (Some(Id::IT), "+77", 77, true), 2 => (Some(Id::FR), "", 77, false), 3 => (Some(Id::FR), "99991", 991, true), _ => (Some(Id::IT), "0277", 77, true) };
    t.push_str(pre);
    t.push_str(&d);
    sym::note(|| format!("{hint:?} {t}"));
    let mut nat = &d[..];
    let mut came = came;
    if f == 2 {
        if b(0) == b'9' && b(1) == b'9' { sym::mark("dialling prefix"); return; }
        if b(0) == b'7' && b(1) == b'7' { nat = &nat[2..]; came = true; }
    }
    if code == 77 && !(came && general(nat)) && nat.starts_with('8') && nat.len() >= 6 { nat = &nat[1..]; }
    match parse_with(db, hint, &t) {
        Ok(m) => {
            sym::check(nat.len() >= 2, "a number too short is accepted");
            sym::check(m.code().value() == code, "another calling code");
            sym::check(m.national().to_string() == nat, "another national number");
            sym::check(m.carrier().is_none() && m.extension().is_none(), "carrier or extension out of nothing");
            sym::mark("ok");
        }
        Err(_) => { sym::check(nat.len() < 2 || came && d.len() < 2, "a number is rejected"); sym::mark("rejected"); }
    }
}
/// C20: numbers are classified and formatted by the rules of the caller's database.
pub fn c20f() {
    let db = &data().custom;
    let (code, pre) = [(77, "+77"), (66, "+66"), (991, "+991")][sym::split(3) as usize];
    let n = 4 + sym::split(3) as usize;
    let d = digits(n);
    let ext = sym::split(2) == 1;
    let mut t = String::with_capacity(24);
    t.push_str(pre);
    t.push_str(&d);
    if ext { t.push_str(" ext. 7"); }
    let Ok(m) = parse_with(db, None, &t) else { sym::mark("rejected"); return };
    if m.national().to_string() != d { sym::mark("prefix"); return; }
    sym::note(|| format!("{t} {}", m.format_with(db).mode(Mode::National)));
    let c = d.as_bytes()[0];
    let (kind, id) = match (code, n, c) {
        (77, 5, b'2') => (Type::Mobile, Some("FR")), (77, 6, b'3' | b'4') => (Type::FixedLine, Some("FR")), (77, 5, b'5') => (Type::TollFree, Some("FR")), (77, _, _) => (Type::Unknown, Some("FR")),
        (66, 5, b'8') => (Type::Pager, Some("ES")), (66, 5, b'1'..=b'4') => (Type::Voip, Some("IT")), (66, _, b'8') => (Type::Unknown, Some("ES")), (66, _, _) => (Type::Unknown, None),
        (_, 4, b'1') => (Type::Uan, Some("001")), (_, _, _) => (Type::Unknown, Some("001")),
    };
    sym::check(m.number_type_with(db) == kind, "type");
    sym::check(m.is_valid_with(db) == (kind != Type::Unknown) && phonenumber::is_valid_with(db, &m) == (kind != Type::Unknown), "validity");
    sym::check(m.metadata(db).map(|m| m.id()) == id, "territory");
    let cs = &pre[1..];
    let (mut nat, mut int) = (String::with_capacity(32), String::with_capacity(32));
    int.push('+'); int.push_str(cs); int.push(' ');
    let mut rfc = String::with_capacity(32);
    rfc.push_str("tel:"); rfc.push_str(&int[..int.len() - 1]); rfc.push('-');
    if code == 77 && n == 5 {
        nat.push('8'); nat.push_str(&d[..2]); nat.push_str("/ "); nat.push_str(&d[2..]);
        int.push_str(&d[..2]); int.push('-'); int.push_str(&d[2..]);
        rfc.push_str(&d[..2]); rfc.push('-'); rfc.push_str(&d[2..]);
    } else if code == 77 && n == 6 && c == b'3' {
        for s in [&mut nat, &mut int] { s.push('['); s.push_str(&d[..1]); s.push(']'); s.push_str(&d[1..]); }
        rfc.push('-'); rfc.push_str(&d[..1]); rfc.push('-'); rfc.push_str(&d[1..]);
    } else { for s in [&mut nat, &mut int, &mut rfc] { s.push_str(&d); } }
    if ext {
        let p = if code == 77 { " #7" } else { " ext. 7" };
        nat.push_str(p); int.push_str(p); rfc.push_str(";ext=7");
    }
    sym::check(m.format_with(db).mode(Mode::National).to_string() == nat, "national form");
    sym::check(m.format().database(db).mode(Mode::International).to_string() == int, "international form");
    sym::check(phonenumber::format_with(db, &m).mode(Mode::Rfc3966).to_string() == rfc, "URI");
    sym::check(m.format_with(db).to_string() == t[..1 + cs.len() + n], "E.164 form");
    sym::mark("ok");
}
/// C20: what a database does not know is an error or invalid.
pub fn c20u() {
    let db = &data().custom;
    let f = sym::split(6);
    let n = 3 + sym::split(6) as usize;
    let d = digits(n);
    let (hint, pre) = [(Some(Id::US), ""), (Some(Id::GB), "77"), (Some(Id::US), "+1"), (None, "+44"), (None, ""), (Some(Id::US), "+77")][f as usize];
    let mut t = String::from(pre);
    t.push_str(&d);
    sym::note(|| format!("{hint:?} {t}"));
    let r = parse_with(db, hint, &t);
    // the default dialling prefix applies without a hint
    if f == 4 && d.starts_with("00") { sym::mark("dialling prefix"); }
    else if f < 5 { sym::check(r.is_err(), "a number the database cannot know is accepted"); sym::mark("rejected"); }
    else { match (r, parse_with(db, None, &t)) { (Ok(a), Ok(b)) => { sym::check(a == b, "an unknown hint matters"); sym::mark("same"); } (Err(_), Err(_)) => sym::mark("rejected"), _ => sym::check(false, "an unknown hint decides") } }
    // a number of the built-in database
    let mut t = String::from("+4420");
    t.push_str(&d);
    let Ok(m) = phonenumber::parse(None, &t) else { return };
    sym::check(!m.is_valid_with(db) && m.number_type_with(db) == Type::Unknown && m.metadata(db).is_none(), "an unknown number is valid");
    sym::check(m.format_with(db).to_string() == t && m.format_with(db).mode(Mode::National).to_string() == t[3..], "digits");
    let _ = (m.format_with(db).mode(Mode::International).to_string(), m.format_with(db).mode(Mode::Rfc3966).to_string());
    sym::mark("ok");
}

/// C18: several territories; nothing of one shows in another.
pub fn c18m() {
    let n = 1 + sym::split(3) as usize;
    let gone = sym::split(6) as usize;
    let mut t = String::with_capacity(2400);
    t.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    t.push_str(HEAD);
    let mut vs = vec![];
    for i in 0..n {
        let (id, rule, np, ex) = (val(2), val(2), val(1), digits(2));
        let has = |k: usize| (gone + i) % 6 != k;
        t.push_str("<territory");
        attr(&mut t, "id", &id);
        if has(0) { attr(&mut t, "nationalPrefixFormattingRule", &rule); attr(&mut t, "nationalPrefixOptionalWhenFormatting", "true"); attr(&mut t, "carrierCodeFormattingRule", &rule); }
        if has(1) { attr(&mut t, "nationalPrefix", &np); }
        if has(2) { attr(&mut t, "mainCountryForCode", "true"); }
        t.push_str(">\n");
        if has(3) { t.push_str("<availableFormats><numberFormat pattern=\"p\"><format>f</format></numberFormat>"); if has(4) { t.push_str("<numberFormat pattern=\"q\"><format>g</format><intlFormat>NA</intlFormat></numberFormat>"); } t.push_str("</availableFormats>\n"); }
        t.push_str("<generalDesc><nationalNumberPattern>x</nationalNumberPattern>");
        if has(4) { t.push_str("<possibleLengths national=\"4\" localOnly=\"2\"/>"); }
        t.push_str("</generalDesc>");
        if has(5) { t.push_str("<mobile>"); elem(&mut t, "exampleNumber", &ex); t.push_str("</mobile>\n"); }
        t.push_str("</territory>");
        vs.push((id, rule, np, ex));
    }
    t.push_str("</territories>\n</phoneNumberMetadata>\n");
    sym::note(|| t.clone());
    let Ok(ms) = load(&t) else { sym::check(false, "the document is rejected"); return };
    sym::check(ms.len() == n, "number of territories");
    for (i, m) in ms.iter().enumerate() {
        let has = |k: usize| (gone + i) % 6 != k;
        let (id, rule, np, ex) = &vs[i];
        sym::check(m.id.as_ref() == Some(id), "identifier");
        sym::check(m.national_prefix == if has(1) { Some(np.clone()) } else { None }, "national prefix");
        sym::check(m.main_country_for_code == has(2) && m.country_code.is_none() && m.international_prefix.is_none(), "attributes");
        sym::check(m.formats.len() == if has(3) { 1 + has(4) as usize } else { 0 } && m.international_formats.len() == has(3) as usize, "formats");
        for f in m.formats.iter().chain(&m.international_formats) {
            let r = if has(0) { Some(rule.clone()) } else { None };
            sym::check(f.national_prefix_formatting_rule == r && f.domestic_carrier == r && f.national_prefix_optional_when_formatting == has(0) && f.leading_digits.is_empty(), "format");
        }
        sym::check(m.general.as_ref().is_some_and(|g| g.possible_length.len() == has(4) as usize && g.possible_local_length.len() == has(4) as usize && g.national_number.as_deref() == Some("x") && g.example.is_none()), "general description");
        sym::check(m.mobile.as_ref().map(|g| g.example.as_ref() == Some(ex) && g.national_number.is_none() && g.possible_length.is_empty()) == if has(5) { Some(true) } else { None }, "mobile numbers");
        sym::check(m.fixed_line.is_none() && m.toll_free.is_none() && m.voip.is_none() && m.pager.is_none(), "other numbers");
    }
    sym::mark("ok");
}
/// C23: identifiers of territories are two letters and read back.
pub fn c23() {
    const ID: [u32; 60] = { let mut t = [0; 60]; let mut i = 0; while i < 26 { t[i] = 65 + i as u32; t[26 + i] = 97 + i as u32; i += 1; } t[52] = 48; t[53] = 49; t[54] = 32; t[55] = 45; t[56] = 95; t[57] = 0xC9; t[58] = 0; t[59] = 0x391; t };
    let n = sym::split(4) as usize;
    let mut s = String::with_capacity(16);
    for _ in 0..n { s.push(ch(&ID)); }
    sym::note(|| s.clone());
    match s.parse::<Id>() {
        Ok(i) => {
            let t: &str = i.as_ref();
            sym::check(t == s, "identifier");
            sym::check(s.len() == 2, "an identifier that is not two letters");
            sym::mark("ok");
        }
        Err(_) => {
            // what the metadata names can be a hint
            let known = data().regs.iter().any(|r| r.id != "001" && r.id == s);
            sym::check(!known, "a territory that cannot be a hint");
            sym::mark("rejected");
        }
    }
}
