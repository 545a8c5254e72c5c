//! Declarations generated by lib/derive.py, compiled with the derive macros and run.
#![allow(non_camel_case_types, dead_code, unused_imports, clippy::all)]
#[path = "../../watchdog.rs"]
mod watchdog;
#[path = "../../seq/src/drive.rs"]
mod drive;
#[path = "../../faulty.rs"]
mod faulty;
mod support;
mod gen {
    include!(env!("GEN_RS"));
}
fn main() {
    watchdog::watch();
    std::panic::set_hook(Box::new(|_| {}));
    gen::run();
}
