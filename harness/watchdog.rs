//! Ends the process when the code under test does not come back: `beat` is called for every case; 40 s of
//! processor time, or 200 s without any, with no beat, is an end the check driver sees as a death in that case.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static BEATS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
fn cpu() -> i64 {
    let mut t = Ts { s: 0, n: 0 };
    // the processor time of the process
    unsafe { clock_gettime(2, &mut t) };
    t.s
}

pub fn beat() {
    BEATS.fetch_add(1, SeqCst);
}

pub fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut c, mut w) = (0, cpu(), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEATS.load(SeqCst);
            if b != last {
                (last, c, w) = (b, cpu(), Instant::now());
            } else if cpu() - c > 40 || w.elapsed().as_secs() > 200 {
                eprintln!("the code under test does not come back");
                std::process::abort();
            }
        }
    });
}
