//! Runs histories of runtimes, collectors and scrapes on the real tokio collectors.
//! Nothing is judged here: every scrape reports what each runtime says about itself and what was exported.
#[path = "../../watchdog.rs"]
mod watchdog;
#[path = "../../faulty.rs"]
mod faulty;
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::time::Duration;
use tokio::runtime::{Builder, HistogramScale, Runtime, RuntimeMetrics};

fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhx(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let v = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(v).unwrap()
}

struct Buf<'a>(&'a mut Vec<u8>);
impl Write for Buf<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// a destination at whose n-th write something happens
struct At<F: FnMut() -> std::io::Result<()>> {
    n: usize,
    f: F,
}
impl<F: FnMut() -> std::io::Result<()>> Write for At<F> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n = self.n.wrapping_sub(1);
        if self.n == 0 {
            (self.f)()?;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// a scrape into it; what becomes of it is not looked at
fn scrape_at(c: &Col, proto: bool, n: usize, f: impl FnMut() -> std::io::Result<()>) {
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let w = At { n, f };
        if proto {
            let mut e = ProtoEncoder::new(w);
            let _ = match c {
                Col::Named(c) => c.collect_group_into(&mut e),
                Col::Single(c) => c.collect_group_into(&mut e),
            };
        } else {
            let mut e = TextEncoder::new(w);
            let _ = match c {
                Col::Named(c) => c.collect_group_into(&mut e),
                Col::Single(c) => c.collect_group_into(&mut e),
            };
        }
    }));
}
/// a name that cannot be made
struct NoName;
impl From<NoName> for std::borrow::Cow<'static, str> {
    fn from(_: NoName) -> Self {
        panic!("no name")
    }
}

type Text = BufferedTextEncoder;
type Proto<'a> = ProtoEncoder<Buf<'a>>;

macro_rules! documents {
    ($c:expr, $ns:expr) => {{
        let mut e = Text::new();
        if $ns {
            WithNamespace::new("tokio", &$c).collect_group_into(&mut e).expect("text");
        } else {
            (&$c).collect_group_into(&mut e).expect("text");
        }
        let t = e.finish().to_vec();
        let mut v = vec![];
        {
            let mut e: Proto = ProtoEncoder::new(Buf(&mut v));
            if $ns {
                WithNamespace::new("tokio", &$c).collect_group_into(&mut e).expect("proto");
            } else {
                (&$c).collect_group_into(&mut e).expect("proto");
            }
            e.flush().expect("proto");
        }
        (t, v)
    }};
}

/// what a runtime says about itself
fn report(m: &RuntimeMetrics) -> String {
    let f = |d: Duration| format!("\"{:016x}\"", d.as_secs_f64().to_bits());
    let n = m.num_workers();
    let mut w = vec![];
    for i in 0..n {
        let mut buckets = vec![];
        if m.poll_count_histogram_enabled() {
            for b in 0..m.poll_count_histogram_num_buckets() {
                buckets.push(format!("\"{}\"", m.poll_count_histogram_bucket_count(i, b)));
            }
        }
        w.push(format!(
            "{{\"depth\":\"{}\",\"local\":\"{}\",\"over\":\"{}\",\"mean\":{},\"noop\":\"{}\",\"park\":\"{}\",\"steal\":\"{}\",\"ops\":\"{}\",\"polls\":\"{}\",\"busy\":{},\"buckets\":[{}]}}",
            m.worker_local_queue_depth(i),
            m.worker_local_schedule_count(i),
            m.worker_overflow_count(i),
            f(m.worker_mean_poll_time(i)),
            m.worker_noop_count(i),
            m.worker_park_count(i),
            m.worker_steal_count(i),
            m.worker_steal_operations(i),
            m.worker_poll_count(i),
            f(m.worker_total_busy_duration(i)),
            buckets.join(",")
        ));
    }
    let mut le = vec![];
    if m.poll_count_histogram_enabled() {
        for b in 0..m.poll_count_histogram_num_buckets() {
            let e = m.poll_count_histogram_bucket_range(b).end;
            le.push(if e == Duration::from_nanos(u64::MAX) { "\"7ff0000000000000\"".into() } else { f(e) });
        }
    }
    #[cfg(feature = "net")]
    let io = format!(
        "[\"{}\",\"{}\",\"{}\"]",
        m.io_driver_fd_registered_count(),
        m.io_driver_fd_deregistered_count(),
        m.io_driver_ready_count()
    );
    #[cfg(not(feature = "net"))]
    let io = "[]";
    format!(
        "{{\"hist\":{},\"blocking\":{},\"idle\":{},\"active\":\"{}\",\"bq\":\"{}\",\"inj\":\"{}\",\"remote\":\"{}\",\"yields\":\"{}\",\"io\":{},\"le\":[{}],\"w\":[{}]}}",
        m.poll_count_histogram_enabled(),
        m.num_blocking_threads(),
        m.num_idle_blocking_threads(),
        m.active_tasks_count(),
        m.blocking_queue_depth(),
        m.injection_queue_depth(),
        m.remote_schedule_count(),
        m.budget_forced_yield_count(),
        io,
        le.join(","),
        w.join(",")
    )
}

type Job = Box<dyn FnOnce() + Send>;

struct Rt {
    m: RuntimeMetrics,
    rt: Option<Arc<Runtime>>,
    jobs: Option<tokio::sync::mpsc::UnboundedSender<Job>>,
    driver: Option<std::thread::JoinHandle<()>>,
    held: Vec<mpsc::Sender<()>>,
    multi: bool,
    io: bool,
    #[cfg(feature = "net")]
    socks: Arc<Mutex<Vec<tokio::net::UnixStream>>>,
}

fn make(w: &[&str]) -> Rt {
    // rt kind workers hist(-|lin|log):buckets:resolution_us io maxblocking
    let n: usize = w[1].parse().unwrap();
    let multi = w[0] == "multi";
    let mut b = if multi { Builder::new_multi_thread() } else { Builder::new_current_thread() };
    if multi {
        b.worker_threads(n);
    }
    let h: Vec<&str> = w[2].split(':').collect();
    if h[0] != "-" {
        b.enable_metrics_poll_count_histogram()
            .metrics_poll_count_histogram_scale(if h[0] == "lin" { HistogramScale::Linear } else { HistogramScale::Log })
            .metrics_poll_count_histogram_buckets(h[1].parse().unwrap())
            .metrics_poll_count_histogram_resolution(Duration::from_micros(h[2].parse().unwrap()));
    }
    let io = w[3] == "io";
    #[cfg(feature = "net")]
    if io {
        b.enable_io();
    }
    b.max_blocking_threads(w[4].parse().unwrap()).thread_keep_alive(Duration::from_secs(3600));
    let rt = Arc::new(b.build().expect("harness: runtime"));
    let m = rt.metrics();
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Job>();
    let r2 = rt.clone();
    let driver = std::thread::spawn(move || {
        r2.block_on(async move {
            while let Some(j) = rx.recv().await {
                j();
            }
        })
    });
    Rt {
        m,
        rt: Some(rt),
        jobs: Some(tx),
        driver: Some(driver),
        held: vec![],
        multi,
        io,
        #[cfg(feature = "net")]
        socks: Default::default(),
    }
}

impl Rt {
    /// in the context of the runtime
    fn run<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
        let (tx, rx) = mpsc::channel();
        self.jobs.as_ref()?.send(Box::new(move || { let _ = tx.send(f()); })).ok()?;
        rx.recv_timeout(Duration::from_secs(20)).ok()
    }

    fn work(&mut self, what: &str, n: usize) {
        let Some(rt) = self.rt.clone() else { return };
        let h = rt.handle().clone();
        // nobody may be left to do the work
        let patience = Duration::from_millis(if self.held.is_empty() { 10000 } else { 15 });
        match what {
            "tasks" => {
                let (tx, rx) = mpsc::channel::<()>();
                for i in 0..n {
                    let tx = tx.clone();
                    h.spawn(async move {
                        for _ in 0..i % 7 {
                            tokio::task::yield_now().await;
                        }
                        drop(tx);
                    });
                }
                drop(tx);
                let _ = rx.recv_timeout(patience);
            }
            // spawned by a task: from the inside
            "inner" => {
                let (tx, rx) = mpsc::channel::<()>();
                h.spawn(async move {
                    for _ in 0..n {
                        let tx = tx.clone();
                        tokio::spawn(async move {
                            tokio::task::yield_now().await;
                            drop(tx)
                        });
                    }
                });
                let _ = rx.recv_timeout(patience);
            }
            "pend" => {
                for _ in 0..n {
                    h.spawn(std::future::pending::<()>());
                }
            }
            "slow" => {
                let (tx, rx) = mpsc::channel::<()>();
                for i in 0..n {
                    let tx = tx.clone();
                    h.spawn(async move {
                        std::thread::sleep(Duration::from_micros(1 << (3 * (i % 5))));
                        drop(tx)
                    });
                }
                drop(tx);
                let _ = rx.recv_timeout(patience);
            }
            "yields" => {
                let (tx, rx) = mpsc::channel::<()>();
                h.spawn(async move {
                    for _ in 0..n * 200 {
                        tokio::task::consume_budget().await;
                    }
                    drop(tx)
                });
                let _ = rx.recv_timeout(patience);
            }
            // blocking threads that stay busy, and work behind them
            "block" => {
                for _ in 0..n {
                    let (tx, rx) = mpsc::channel::<()>();
                    self.held.push(tx);
                    h.spawn_blocking(move || {
                        let _ = rx.recv();
                    });
                }
            }
            "idle" => {
                let (tx, rx) = mpsc::channel::<()>();
                for _ in 0..n {
                    let tx = tx.clone();
                    h.spawn_blocking(move || {
                        std::thread::sleep(Duration::from_millis(2));
                        drop(tx)
                    });
                }
                drop(tx);
                let _ = rx.recv_timeout(patience);
            }
            // every worker stands still with tasks in its own queue, and tasks are injected
            "stall" => {
                if !self.multi {
                    return;
                }
                let k = self.m.num_workers();
                let all = Arc::new(Barrier::new(k));
                let (done, wait) = mpsc::channel();
                for i in 0..k {
                    let (tx, rx) = mpsc::channel::<()>();
                    self.held.push(tx);
                    let (all, done) = (all.clone(), done.clone());
                    let rx = Mutex::new(rx);
                    h.spawn(async move {
                        all.wait();
                        for _ in 0..2 + 3 * i {
                            tokio::spawn(async {});
                        }
                        let _ = done.send(());
                        drop(done);
                        let _ = rx.lock().unwrap().recv();
                    });
                }
                drop(done);
                for _ in 0..k {
                    let _ = wait.recv_timeout(patience);
                }
                for _ in 0..n {
                    h.spawn(async {});
                }
            }
            "free" => self.held.clear(),
            "io" => {
                #[cfg(feature = "net")]
                if self.io {
                    let s = self.socks.clone();
                    let (tx, rx) = mpsc::channel::<()>();
                    h.spawn(async move {
                        for i in 0..n {
                            let (a, b) = tokio::net::UnixStream::pair().unwrap();
                            if i % 3 == 0 {
                                let _ = a.try_write(b"x");
                                let _ = b.readable().await;
                            }
                            s.lock().unwrap().extend([a, b]);
                        }
                        drop(tx)
                    });
                    let _ = rx.recv_timeout(patience);
                }
            }
            "close" => {
                #[cfg(feature = "net")]
                {
                    let s = self.socks.clone();
                    self.run(move || {
                        let mut s = s.lock().unwrap();
                        let k = s.len() / 2;
                        s.truncate(k)
                    });
                }
            }
            "shut" => {
                self.held.clear();
                #[cfg(feature = "net")]
                {
                    let s = self.socks.clone();
                    self.run(move || s.lock().unwrap().clear());
                }
                self.jobs = None;
                if let Some(d) = self.driver.take() {
                    let _ = d.join();
                }
                drop(h);
                self.rt = None;
                if let Ok(rt) = Arc::try_unwrap(rt) {
                    rt.shutdown_timeout(Duration::from_millis(500));
                }
            }
            o => panic!("harness: work {o}"),
        }
    }
}

enum Col {
    Named(NamedRuntimesCollector),
    Single(RuntimeCollector),
}

fn case(lines: &[String]) {
    let mut rts: Vec<Rt> = vec![];
    // a collector and the runtimes in it, with their names
    let mut cols: Vec<(Col, Vec<(usize, Option<String>)>)> = vec![];
    for l in lines {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "rt" => rts.push(make(&w[1..])),
            "work" => rts[w[1].parse::<usize>().unwrap()].work(w[2], w[3].parse().unwrap()),
            "named" => cols.push((Col::Named(if w.get(1) == Some(&"dflt") { Default::default() } else { NamedRuntimesCollector::new() }), vec![])),
            "single" => {
                let i: usize = w[1].parse().unwrap();
                let mut c = RuntimeCollector::new(rts[i].m.clone());
                let name = (w[2] != "none").then(|| unhx(w[2]));
                if let Some(n) = &name {
                    c = c.with_name(n.clone());
                }
                cols.push((Col::Single(c), vec![(i, name)]));
            }
            "current" => {
                let i: usize = w[1].parse().unwrap();
                let c = match &rts[i].rt {
                    Some(rt) => {
                        let _g = rt.enter();
                        RuntimeCollector::current()
                    }
                    None => RuntimeCollector::new(rts[i].m.clone()),
                };
                cols.push((Col::Single(c), vec![(i, None)]));
            }
            "add" | "addc" => {
                let k: usize = w[1].parse().unwrap();
                let i: usize = w[2].parse().unwrap();
                let name = unhx(w[3]);
                let Col::Named(c) = &cols[k].0 else { panic!("harness: not a named collector") };
                match &rts[i].rt {
                    Some(rt) if w[0] == "addc" => {
                        let _g = rt.enter();
                        c.add_current(name.clone());
                    }
                    _ => c.add(rts[i].m.clone(), name.clone()),
                }
                cols[k].1.push((i, Some(name)));
            }
            // a scrape whose destination panics or fails at some write
            "wreck" => {
                let (k, how, n): (usize, _, usize) = (w[1].parse().unwrap(), w[2], w[3].parse().unwrap());
                for proto in [false, true] {
                    scrape_at(&cols[k].0, proto, n, || match how {
                        "panic" => panic!("injected"),
                        _ => Err(std::io::Error::other("injected")),
                    });
                }
            }
            // scrapes into a destination that fails; of runtimes that do nothing meanwhile
            "fault" => {
                let (c, who) = &cols[w[1].parse::<usize>().unwrap()];
                let hs: Vec<&str> = w[4..].to_vec();
                let seed: usize = w[3].parse().unwrap();
                let look = || who.iter().map(|(i, _)| report(&rts[*i].m)).collect::<Vec<_>>();
                let mut ok = false;
                for n in 0..30 {
                    watchdog::beat();
                    let a = look();
                    std::thread::sleep(Duration::from_millis(3 + n));
                    if look() != a {
                        continue;
                    }
                    let mut ls = vec![];
                    macro_rules! all {
                        ($g:expr) => {{
                            ls.extend(faulty::histories::<TextEncoder<faulty::W>, _>(w[1], &$g, &hs, seed));
                            ls.extend(faulty::histories::<ProtoEncoder<faulty::W>, _>(w[1], &$g, &hs, seed));
                        }};
                    }
                    match (c, w[2] == "ns") {
                        (Col::Named(c), false) => all!(c),
                        (Col::Named(c), true) => all!(WithNamespace::new("tokio", c)),
                        (Col::Single(c), false) => all!(c),
                        (Col::Single(c), true) => all!(WithNamespace::new("tokio", c)),
                    }
                    if look() == a {
                        println!("{}", ls.join("\n"));
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    println!("unstable");
                }
            }
            // registrations that panic before anything is registered
            "badadd" => {
                let Col::Named(c) = &cols[w[1].parse::<usize>().unwrap()].0 else { panic!("harness: not a named collector") };
                let i: usize = w[2].parse().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| match w[3] {
                    "current" => c.add_current("nobody"),
                    _ => c.add(rts[i].m.clone(), NoName),
                }));
                if r.is_ok() {
                    println!("harness: no panic");
                }
            }
            // registered by another thread in the middle of a scrape
            "during" => {
                let k: usize = w[1].parse().unwrap();
                let i: usize = w[2].parse().unwrap();
                let (name, n, proto) = (unhx(w[3]), w[4].parse().unwrap(), w[5] == "proto");
                let Col::Named(c) = &cols[k].0 else { panic!("harness: not a named collector") };
                let m = rts[i].m.clone();
                std::thread::scope(|s| {
                    let (tx, rx) = mpsc::channel::<()>();
                    let (name, done) = (name.clone(), Arc::new(std::sync::atomic::AtomicBool::new(false)));
                    let d = done.clone();
                    s.spawn(move || {
                        let _ = rx.recv();
                        c.add(m, name);
                        d.store(true, std::sync::atomic::Ordering::SeqCst);
                    });
                    let tx = Some(tx);
                    scrape_at(&cols[k].0, proto, n, || {
                        if let Some(tx) = &tx {
                            let _ = tx.send(());
                        }
                        // it may have to wait for the scrape, or not
                        for _ in 0..8 {
                            if !done.load(std::sync::atomic::Ordering::SeqCst) {
                                std::thread::sleep(Duration::from_millis(1));
                            }
                        }
                        Ok(())
                    });
                    drop(tx);
                });
                cols[k].1.push((i, Some(name)));
            }
            // a scrape while another one is at work and a registration waits for it
            "crowd" => {
                let who = &cols[w[1].parse::<usize>().unwrap()].1;
                let i: usize = w[2].parse().unwrap();
                let (name, at, first_proto) = (unhx(w[3]), w[4].parse::<usize>().unwrap(), w[5] == "proto");
                let look = || who.iter().map(|(i, _)| *i).chain([i]).map(|i| report(&rts[i].m)).collect::<Vec<_>>();
                let mut ok = false;
                for k in 0..40 {
                    let c = NamedRuntimesCollector::new();
                    for (i, n) in who {
                        c.add(rts[*i].m.clone(), n.clone().expect("harness: no name"));
                    }
                    let c = Col::Named(c);
                    let Col::Named(n) = &c else { unreachable!() };
                    std::thread::sleep(Duration::from_millis(k));
                    let a = look();
                    let m = rts[i].m.clone();
                    let d = std::thread::scope(|s| {
                        let (tx, rx) = mpsc::channel::<()>();
                        let (tx2, rx2) = mpsc::channel::<()>();
                        let name = name.clone();
                        s.spawn(move || {
                            let _ = rx.recv();
                            n.add(m, name);
                        });
                        let h = s.spawn(move || {
                            let _ = rx2.recv();
                            catch_unwind(AssertUnwindSafe(|| documents!(*n, false))).ok()
                        });
                        let (tx, tx2) = (Some(tx), Some(tx2));
                        scrape_at(&c, first_proto, at, || {
                            let _ = tx.as_ref().map(|t| t.send(()));
                            std::thread::sleep(Duration::from_millis(6));
                            let _ = tx2.as_ref().map(|t| t.send(()));
                            std::thread::sleep(Duration::from_millis(6));
                            Ok(())
                        });
                        drop((tx, tx2));
                        h.join().unwrap()
                    });
                    let Some((t, p)) = d else {
                        println!("panic scrape");
                        return;
                    };
                    if look() == a {
                        let names: Vec<String> =
                            who.iter().map(|(_, n)| n.clone().unwrap()).chain([name.clone()]).map(|n| format!("n{}", hx(n.as_bytes()))).collect();
                        println!("crowd plain {} {} {} [{}]", names.join(","), hx(&t), hx(&p), a.join(","));
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    println!("unstable");
                }
            }
            "scrape" => {
                let (c, who) = &cols[w[1].parse::<usize>().unwrap()];
                let ns = w[2] == "ns";
                let look = || who.iter().map(|(i, _)| report(&rts[*i].m)).collect::<Vec<_>>();
                let mut ok = false;
                for n in 0..400 {
                    let a = look();
                    let d = catch_unwind(AssertUnwindSafe(|| match c {
                        Col::Named(c) => documents!(*c, ns),
                        Col::Single(c) => documents!(*c, ns),
                    }));
                    let b = look();
                    let Ok((t, p)) = d else {
                        println!("panic scrape");
                        return;
                    };
                    if a == b {
                        let names: Vec<String> =
                            who.iter().map(|(_, n)| n.as_ref().map_or("none".into(), |n| format!("n{}", hx(n.as_bytes())))).collect();
                        println!("scrape {} {} {} {} [{}]", w[2], if names.is_empty() { "x".into() } else { names.join(",") }, hx(&t), hx(&p), a.join(","));
                        ok = true;
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(1 + n / 8));
                }
                if !ok {
                    println!("unstable");
                }
            }
            o => panic!("harness: bad line {o}"),
        }
    }
    for r in &mut rts {
        r.work("shut", 0);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog::watch();
    let mut cur: Option<(String, Vec<String>)> = None;
    let stdin: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for line in stdin {
        if let Some(id) = line.strip_prefix("case ") {
            if let Some((i, ls)) = cur.take() {
                println!("case {i}");
                watchdog::beat();
                case(&ls);
                let _ = std::io::stdout().flush();
            }
            if id == "END" {
                println!("case END");
                let _ = std::io::stdout().flush();
                std::process::exit(0)
            }
            cur = Some((id.to_string(), vec![]));
        } else if let Some((_, ls)) = &mut cur {
            ls.push(line);
        }
    }
}

