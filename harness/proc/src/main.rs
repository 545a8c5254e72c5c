//! Runs histories of processes, collectors and scrapes on the real ProcessCollector.
//!
//! fake: /proc is a directory of our own, reached by chroot in a user namespace of our own; files
//! are put and removed by the script. real: a child process of ours, stopped while it is looked at.
//! Nothing is judged here: every scrape reports what /proc said and what was exported.
#[path = "../../faulty.rs"]
mod faulty;
use measured::metric::group::MetricGroup;
use measured::text::BufferedTextEncoder;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhx(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

struct Buf<'a>(&'a mut Vec<u8>);
impl Write for Buf<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn text(c: &ProcessCollector) -> Result<Vec<u8>, String> {
    let mut e = BufferedTextEncoder::new();
    c.collect_group_into(&mut e).map_err(|e| format!("{e:?}"))?;
    Ok(e.finish().to_vec())
}
fn proto(c: &ProcessCollector) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    {
        let mut e = ProtoEncoder::new(Buf(&mut v));
        c.collect_group_into(&mut e).map_err(|e| e.to_string())?;
        e.flush().map_err(|e| e.to_string())?;
    }
    Ok(v)
}

/// what /proc says about the process: stat, limits (empty: nothing), number of descriptors (-1: nothing)
#[derive(PartialEq, Clone, Debug)]
struct Seen {
    stat: Vec<u8>,
    limits: Vec<u8>,
    fds: i64,
    gone: bool,
}
fn look(pid: i32) -> Seen {
    let d = format!("/proc/{pid}");
    Seen {
        stat: std::fs::read(format!("{d}/stat")).unwrap_or_default(),
        limits: std::fs::read(format!("{d}/limits")).unwrap_or_default(),
        fds: std::fs::read_dir(format!("{d}/fd")).map_or(-1, |l| l.count() as i64),
        gone: !std::path::Path::new(&d).exists(),
    }
}
fn btime() -> String {
    let s = std::fs::read_to_string("/proc/stat").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("btime ")).unwrap_or("-").trim().to_string()
}

fn show(i: &str, seen: &Seen, t: Result<Vec<u8>, String>, p: Result<Vec<u8>, String>) {
    let r = |x: Result<Vec<u8>, String>| x.map_or_else(|e| format!("err:{}", hx(e.as_bytes())), |b| hx(&b));
    println!("scrape {i} {} {} {} {} {} {}", hx(&seen.stat), hx(&seen.limits), seen.fds, seen.gone as u8, r(t), r(p));
}

// ------------------------------------------------------------------ children

#[repr(C)]
struct Mail {
    seq: AtomicU32,
    ack: AtomicU32,
    op: AtomicI32,
    arg: AtomicI32,
}

fn mailbox() -> &'static Mail {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        &*(p as *const Mail)
    }
}

const OPS: [&str; 7] = ["fds", "soft", "map", "touch", "burn", "threads", "comm"];
const COMMS: [&[u8]; 8] =
    [b"plain", b"a b c", b") R 1 2 3", b"((x) S 9 9 (", b"new\nline", b"12 34", b"q\"uote\\", b"\xff\xfe)"];

/// n open descriptors
unsafe fn set_fds(n: i32) {
    for f in 0..4096 {
        if f >= n {
            libc::close(f);
        } else if libc::fcntl(f, libc::F_GETFD) == -1 {
            let g = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
            if g != f && g >= 0 {
                libc::dup2(g, f);
                libc::close(g);
            }
        }
    }
}

unsafe fn child(m: &Mail) -> ! {
    let mut held: Vec<(*mut u8, usize)> = vec![];
    let mut seen = 0;
    loop {
        let s = m.seq.load(SeqCst);
        if s == seen {
            libc::usleep(200);
            continue;
        }
        seen = s;
        let a = m.arg.load(SeqCst);
        match OPS[m.op.load(SeqCst) as usize] {
            "fds" => {
                if a == 0 {
                    set_fds(0)
                } else {
                    if libc::fcntl(0, libc::F_GETFD) == -1 {
                        libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                    }
                    set_fds(a)
                }
            }
            "soft" => {
                let mut l: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
                l.rlim_cur = (a as u64).min(l.rlim_max);
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            "map" => {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    a as usize * 4096,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                    -1,
                    0,
                );
                if p != libc::MAP_FAILED {
                    held.push((p as *mut u8, a as usize));
                }
            }
            "touch" => {
                if let Some((p, n)) = held.last() {
                    for i in 0..(a as usize).min(*n) {
                        *p.add(i * 4096) = 1;
                    }
                }
            }
            "burn" => {
                let t = Instant::now();
                while t.elapsed() < Duration::from_millis(a as u64) {
                    std::hint::black_box(t);
                }
            }
            "threads" => {
                for _ in 0..a {
                    std::thread::Builder::new().stack_size(65536).spawn(|| loop {
                        libc::usleep(1000000);
                    }).ok();
                }
            }
            _ => {
                let mut b = COMMS[a as usize % COMMS.len()].to_vec();
                b.push(0);
                libc::prctl(libc::PR_SET_NAME, b.as_ptr());
            }
        }
        m.ack.store(s, SeqCst);
    }
}

struct Real {
    pid: i32,
    mail: &'static Mail,
    alive: bool,
}

fn spawn() -> Real {
    let mail = mailbox();
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child(mail)
        }
        assert!(pid > 0, "harness: fork");
        let mut r = Real { pid, mail, alive: true };
        r.command("comm", 0);
        r
    }
}

impl Real {
    fn command(&mut self, op: &str, arg: i32) {
        unsafe {
            libc::kill(self.pid, libc::SIGCONT);
            self.mail.op.store(OPS.iter().position(|o| *o == op).expect("harness: op") as i32, SeqCst);
            self.mail.arg.store(arg, SeqCst);
            let n = self.mail.seq.fetch_add(1, SeqCst) + 1;
            let t = Instant::now();
            while self.mail.ack.load(SeqCst) != n {
                std::thread::sleep(Duration::from_micros(200));
                assert!(t.elapsed() < Duration::from_secs(60), "harness: the child does not answer");
            }
            libc::kill(self.pid, libc::SIGSTOP);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, libc::WUNTRACED);
        }
    }
    fn end(&mut self) {
        unsafe {
            if self.alive {
                libc::kill(self.pid, libc::SIGKILL);
                let mut i: libc::siginfo_t = std::mem::zeroed();
                libc::waitid(libc::P_PID, self.pid as u32, &mut i, libc::WEXITED | libc::WNOWAIT);
            }
            self.alive = false;
        }
    }
    fn reap(&mut self) {
        self.end();
        unsafe {
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}

/// another process with the same pid
fn reuse(pid: i32) -> Option<Real> {
    let mail = mailbox();
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(40) {
        unsafe {
            let p = libc::fork();
            if p == 0 {
                if libc::getpid() == pid {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    child(mail)
                }
                libc::_exit(0)
            }
            if p == pid {
                let mut r = Real { pid, mail, alive: true };
                r.command("comm", 1);
                return Some(r);
            }
            if p > 0 {
                let mut st = 0;
                libc::waitpid(p, &mut st, 0);
            }
        }
    }
    None
}

// ------------------------------------------------------------------ scripts

fn collect_stable(c: &ProcessCollector, pid: i32, i: &str) {
    for _ in 0..50 {
        let a = look(pid);
        let t = text(c);
        let p = proto(c);
        let b = look(pid);
        if a == b {
            return show(i, &a, t, p);
        }
    }
    println!("unstable {i}");
}

fn case(lines: &[String]) {
    let mut cols: BTreeMap<String, ProcessCollector> = BTreeMap::new();
    let mut real: Option<Real> = None;
    let mut pid = 4242;
    for l in lines {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "fake" => {
                // a user namespace of our own, to be allowed to chroot
                unsafe {
                    if libc::unshare(libc::CLONE_NEWUSER) != 0 {
                        println!("nofake");
                        return;
                    }
                    let d = std::ffi::CString::new(w[1]).unwrap();
                    if libc::chroot(d.as_ptr()) != 0 || libc::chdir(c"/".as_ptr()) != 0 {
                        println!("nofake");
                        return;
                    }
                }
                if std::path::Path::new("/etc").exists() {
                    println!("nofake");
                    return;
                }
            }
            "file" => {
                let p = std::path::Path::new(w[1]);
                std::fs::create_dir_all(p.parent().unwrap()).expect("harness: mkdir");
                std::fs::write(p, unhx(w[2])).expect("harness: write");
            }
            "rm" => {
                let p = std::path::Path::new(w[1]);
                let _ = if p.is_dir() { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
            }
            "dir" => std::fs::create_dir_all(w[1]).expect("harness: mkdir"),
            "spawn" => {
                let r = spawn();
                pid = r.pid;
                real = Some(r);
            }
            "cmd" => real.as_mut().expect("harness: no child").command(w[1], w[2].parse().unwrap()),
            "end" => real.as_mut().expect("harness: no child").end(),
            "reap" => real.as_mut().expect("harness: no child").reap(),
            "reuse" => {
                real = reuse(pid);
                if real.is_none() {
                    println!("noreuse");
                    break;
                }
            }
            // the rest of the case is for a child of ours
            "fork" => unsafe {
                let _ = std::io::stdout().flush();
                let p = libc::fork();
                assert!(p >= 0, "harness: fork");
                if p > 0 {
                    let mut st = 0;
                    libc::waitpid(p, &mut st, 0);
                    assert!(st == 0, "harness: the forked child died");
                    return;
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            },
            "self" => pid = unsafe { libc::getpid() },
            "pid" => pid = w[1].parse().unwrap(),
            "make" => {
                let before = look(pid);
                // the boot time is remembered per thread
                let me = w.get(2) == Some(&"self");
                let c = std::thread::spawn(move || {
                    if me {
                        ProcessCollector::for_self()
                    } else {
                        ProcessCollector::new(pid)
                    }
                })
                .join();
                match c {
                    Ok(c) => {
                        println!("make {} {} {}", w[1], hx(&before.stat), btime());
                        cols.insert(w[1].to_string(), c);
                    }
                    Err(_) => {
                        println!("panic make");
                        break;
                    }
                }
            }
            "scrape" => {
                let c = &cols[w[1]];
                let r = catch_unwind(AssertUnwindSafe(|| collect_stable(c, pid, w[1])));
                if r.is_err() {
                    println!("panic scrape {}", w[1]);
                }
            }
            // scrapes into a destination that fails; a process that does not change meanwhile
            "fault" => {
                let c = &cols[w[1]];
                let hs: Vec<&str> = w[3..].to_vec();
                let a = look(pid);
                let mut ls = faulty::histories::<measured::text::TextEncoder<faulty::W>, _>(w[1], c, &hs, w[2].parse().unwrap());
                ls.extend(faulty::histories::<ProtoEncoder<faulty::W>, _>(w[1], c, &hs, w[2].parse().unwrap()));
                if look(pid) == a {
                    println!("{}", ls.join("\n"));
                } else {
                    println!("unstable {}", w[1]);
                }
            }
            // the same, looked at by someone without privileges
            "nobody" => {
                let _ = std::io::stdout().flush();
                let root = look(pid);
                unsafe {
                    let p = libc::fork();
                    if p == 0 {
                        libc::setgroups(0, std::ptr::null());
                        libc::setgid(65534);
                        libc::setuid(65534);
                        let c = ProcessCollector::new(pid);
                        let mut s = look(pid);
                        println!("make {}n {} {}", w[1], hx(&s.stat), btime());
                        let t = text(&c);
                        let pr = proto(&c);
                        s.fds = root.fds;
                        show(&format!("{}n", w[1]), &s, t, pr);
                        let _ = std::io::stdout().flush();
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    libc::waitpid(p, &mut st, 0);
                    if st != 0 {
                        println!("panic nobody");
                    }
                }
            }
            o => panic!("harness: bad line {o}"),
        }
    }
    if let Some(mut r) = real {
        r.reap();
    }
}

fn main() {
    println!("const {} {}", unsafe { libc::sysconf(libc::_SC_CLK_TCK) }, unsafe { libc::sysconf(libc::_SC_PAGESIZE) });
    let mut cur: Option<(String, Vec<String>)> = None;
    let stdin: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for line in stdin {
        if let Some(id) = line.strip_prefix("case ") {
            if let Some((i, ls)) = cur.take() {
                println!("case {i}");
                let _ = std::io::stdout().flush();
                // every case in a process of its own
                unsafe {
                    let p = libc::fork();
                    if p == 0 {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        libc::alarm(100);
                        let r = catch_unwind(AssertUnwindSafe(|| case(&ls)));
                        let _ = std::io::stdout().flush();
                        libc::_exit(if r.is_ok() { 0 } else { 3 });
                    }
                    let mut st = 0;
                    libc::waitpid(p, &mut st, 0);
                    if st != 0 {
                        println!("died {st}");
                    }
                }
            }
            if id == "END" {
                println!("case END");
                return;
            }
            cur = Some((id.to_string(), vec![]));
        } else if let Some((_, ls)) = &mut cur {
            ls.push(line);
        }
    }
}
