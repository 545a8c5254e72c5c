//! Runs scripts against the encoders, groups, label sets, names and thresholds of the real code and prints
//! what it observes. Lines in, lines out; strings are hexadecimal, floats are their bits in hexadecimal.
#[path = "../../watchdog.rs"]
mod watchdog;
mod drive;
mod export;
#[allow(dead_code)]
#[path = "../../faulty.rs"]
mod faulty;
mod names;
mod sets;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn float(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.to_string().replace(['\n', '\t'], " ");
    }));
    watchdog::watch();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut ex = export::World::default();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| match w[0] {
            "case" => {
                watchdog::beat();
                ex = export::World::default();
                out.flush().unwrap();
                Some(format!("case {}", w[1]))
            }
            "name" => Some(names::name(&w[1..])),
            "comp" => Some(names::comp(&w[1..])),
            "set" => Some(sets::set(&w[1..])),
            "sets" => Some(format!("sets {}", sets::all().join(" "))),
            "thr" => Some(export::thresholds(&w[1..])),
            _ => ex.command(&w),
        }));
        match r {
            Ok(None) => {}
            Ok(Some(s)) => writeln!(out, "{s}").unwrap(),
            Err(_) => writeln!(out, "panic {} {}", w[0], hex(LAST_PANIC.lock().unwrap().as_bytes())).unwrap(),
        }
    }
    out.flush().unwrap();
}
