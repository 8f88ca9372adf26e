//! Replays recorded harness inputs against the real crate (and the real regex crate).
//! stdin: one "FUNCTION v,v,v" per line; stdout: one JSON object per line.
#[path = "../../harness/src/lib.rs"]
#[allow(dead_code)]
mod harness;
use harness::sym;
use std::io::{BufRead, Write};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    harness::init();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (f, a) = line.split_once(' ').unwrap_or((&line, ""));
        let ins: Vec<u32> = a.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        let Some((_, g)) = harness::ALL.iter().find(|x| x.0 == f) else { println!("{{\"error\":\"no function {f}\"}}"); continue };
        sym::IN.with(|i| *i.borrow_mut() = (ins, 0));
        sym::MARKS.with(|m| m.borrow_mut().clear());
        sym::FAILS.with(|m| m.borrow_mut().clear());
        sym::NOTES.with(|m| m.borrow_mut().clear());
        let r = std::panic::catch_unwind(|| g());
        let (mut stop, mut panic) = (String::new(), String::new());
        if let Err(e) = r {
            if let Some(s) = e.downcast_ref::<sym::Stop>() { stop = s.0.clone(); }
            else { panic = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()); }
        }
        let used = sym::IN.with(|i| { let i = i.borrow(); i.1 == i.0.len() });
        let marks = sym::MARKS.with(|m| m.borrow().clone());
        let fails = sym::FAILS.with(|m| m.borrow().clone());
        let notes = sym::NOTES.with(|m| m.borrow().clone());
        writeln!(out.lock(), "{{\"marks\":{},\"fails\":{},\"notes\":{},\"stop\":{},\"panic\":{},\"all_inputs_used\":{}}}", list(&marks), list(&fails), list(&notes), esc(&stop), esc(&panic), used).unwrap();
    }
}
