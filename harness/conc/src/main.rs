//! Runs scenarios (setup, concurrent threads, final phase) on the real library under the
//! controlled scheduler and prints every distinct observable history as one JSON line.
#![allow(clippy::all)]
extern crate vstd;

#[path = "../../watchdog.rs"]
mod watchdog;
mod fam;

use fam::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use vstd::sched::{self, Mode, Outcome, Plan};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub name: String,
    /// the access path, when it is not the usual one; the specification does not know it
    pub via: String,
    pub l: i64,
    pub x: i64,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub k: char,
    pub t: usize,
    pub op: Op,
    pub res: Vec<Vec<i64>>,
}

pub struct Scen {
    pub id: String,
    pub o: BTreeMap<String, String>,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub fin: Vec<Op>,
    pub line: String,
}

fn parse_ops(s: &str) -> Vec<Op> {
    s.split(',')
        .map(|x| x.trim())
        .filter(|x| !x.is_empty())
        .map(|x| {
            let mut w = x.split_whitespace();
            let name = w.next().unwrap();
            let (name, via) = name.split_once('@').unwrap_or((name, ""));
            let (name, via) = (name.to_string(), via.to_string());
            let l = w.next().map_or(0, |v| v.parse().unwrap());
            let x = w.next().map_or(0, |v| v.parse().unwrap());
            Op { name, via, l, x }
        })
        .collect()
}

fn parse(line: &str) -> Scen {
    let parts: Vec<&str> = line.split('|').collect();
    let mut o = BTreeMap::new();
    for kv in parts[0].split_whitespace() {
        let (k, v) = kv.split_once('=').unwrap();
        o.insert(k.to_string(), v.to_string());
    }
    let mut s = Scen {
        id: o["id"].clone(),
        o,
        setup: vec![],
        threads: vec![],
        fin: vec![],
        line: line.to_string(),
    };
    for p in &parts[1..] {
        let p = p.trim();
        let (h, r) = p.split_at(1);
        match h {
            "S" => s.setup = parse_ops(r),
            "T" => s.threads.push(parse_ops(r)),
            "F" => s.fin = parse_ops(r),
            _ => panic!("bad part {p}"),
        }
    }
    s
}

impl Scen {
    fn get(&self, k: &str, d: &str) -> String {
        self.o.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: i64) -> i64 {
        self.o.get(k).map_or(d, |v| v.parse().unwrap())
    }
}

pub static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());

fn log(e: Ev) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(e);
}

fn canon(ev: &[Ev]) -> Vec<Ev> {
    // adjacent calls commute, adjacent returns commute: sort the runs by thread
    let mut v: Vec<Ev> = Vec::with_capacity(ev.len());
    let mut i = 0;
    while i < ev.len() {
        let mut j = i;
        while j < ev.len() && ev[j].k == ev[i].k {
            j += 1;
        }
        let mut run: Vec<Ev> = ev[i..j].to_vec();
        if ev[i].k != 'x' {
            run.sort_by_key(|e| e.t);
        }
        v.extend(run);
        i = j;
    }
    v
}

fn render(ev: &[Ev]) -> String {
    let mut s = String::from("[");
    for (i, e) in ev.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let res = e
            .res
            .iter()
            .map(|r| format!("[{}]", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",");
        s += &format!(
            "{{\"k\":\"{}\",\"t\":{},\"op\":\"{}\",\"l\":{},\"x\":{},\"res\":[{}]}}",
            e.k, e.t, e.op.name, e.op.l, e.op.x, res
        );
    }
    s.push(']');
    s
}

fn do_op<'a, K: Kind>(fam: &'a Shared<K>, ctx: &mut Ctx<'a, K>, t: usize, op: &Op) {
    sched::yield_before_call();
    log(Ev { k: 'c', t, op: op.clone(), res: vec![] });
    let r = catch_unwind(AssertUnwindSafe(|| exec(fam, ctx, op)));
    sched::end_call();
    let res = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if m == fam::INJECTED {
                vec![]
            } else {
                PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(m);
                vec![vec![-777777]]
            }
        }
    };
    log(Ev { k: 'r', t, op: op.clone(), res });
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn run_once<K: Kind>(s: &Scen, plan: Plan, native: bool) -> (Outcome, Vec<sched::Choice>, Vec<Ev>) {
    watchdog::beat();
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    sched::set_clock(1_000_000_000);
    sched::set_tick(0);
    MUL.store(s.o.get("mul").map_or(1, |m| m.parse().unwrap()), SeqCst);
    FMUL.store(s.o.get("fmul").map_or(128, |m| m.parse().unwrap()), SeqCst);
    let fam = Shared::<K>::build(&s.get("rep", "sparse"), s.num("nl", 2) as usize, &s.get("hash", "spread"));
    {
        let mut ctx = Ctx::new();
        for op in &s.setup {
            do_op(&fam, &mut ctx, 0, op);
        }
    }
    let n = s.threads.len();
    let mut out = (Outcome::Done, vec![]);
    if n > 0 {
        if native {
            let bar = std::sync::Barrier::new(n);
            std::thread::scope(|sc| {
                for (i, ops) in s.threads.iter().enumerate() {
                    let (fam, bar) = (&fam, &bar);
                    sc.spawn(move || {
                        bar.wait();
                        let mut ctx = Ctx::new();
                        for op in ops {
                            do_op(fam, &mut ctx, i + 1, op);
                        }
                    });
                }
            });
        } else {
            sched::begin(n, plan);
            std::thread::scope(|sc| {
                for (i, ops) in s.threads.iter().enumerate() {
                    let fam = &fam;
                    sc.spawn(move || {
                        sched::set_clock(1_000_000_000);
                        sched::set_tick(0);
                        sched::enter(i);
                        {
                            let mut ctx = Ctx::new();
                            for op in ops {
                                do_op(fam, &mut ctx, i + 1, op);
                            }
                        }
                        sched::leave();
                    });
                }
                out = sched::run();
                if out.0 != Outcome::Done {
                    // some threads can never be joined: report and let the driver start afresh
                    let mut ev = LOG.lock().unwrap_or_else(|e| e.into_inner()).clone();
                    ev.push(Ev {
                        k: 'x',
                        t: 0,
                        op: Op { name: format!("{:?}", out.0).to_lowercase(), via: String::new(), l: 0, x: 0 },
                        res: vec![],
                    });
                    let path: Vec<String> = out.1.iter().map(|c| c.taken.to_string()).collect();
                    emit(s, &ev, &path.join(","), 1);
                    emit_summary(s, 1, 1, false, true);
                    let _ = std::io::stdout().flush();
                    unsafe { exit_now() }
                }
            });
        }
    }
    {
        let mut ctx = Ctx::new();
        for op in &s.fin {
            do_op(&fam, &mut ctx, 0, op);
        }
    }
    let ev = LOG.lock().unwrap_or_else(|e| e.into_inner()).clone();
    (out.0, out.1, ev)
}

unsafe fn exit_now() -> ! {
    std::process::exit(0)
}

fn emit(s: &Scen, ev: &[Ev], path: &str, count: usize) {
    let panics = PANICS.lock().unwrap_or_else(|e| e.into_inner()).join("; ").replace('\\', "/").replace('"', "'").replace('\n', " ");
    println!(
        "H {{\"scen\":\"{}\",\"kind\":\"{}\",\"rep\":\"{}\",\"nl\":{},\"ev\":{}}}\t{}\t{}\t{}",
        s.id,
        s.get("kind", "counter"),
        s.get("rep", "sparse"),
        s.num("nl", 2),
        render(ev),
        path,
        count,
        panics
    );
}

fn emit_summary(s: &Scen, execs: usize, distinct: usize, exhausted: bool, bad: bool) {
    println!("D {} {} {} {} {}", s.id, execs, distinct, exhausted as u8, bad as u8);
}

fn scenario<K: Kind>(s: &Scen, native: bool) {
    let max = s.num("max", 2000) as usize;
    let seed = s.num("seed", 1) as u64;
    let spur = s.num("spur", 0) as usize;
    let pb = s.num("pb", 2) as usize;
    let mode = s.get("mode", "dfs");
    let wp = s.num("wp", 1);
    let steps = s.num("steps", 4000) as usize;
    let secs = s.num("secs", 30) as u64;
    let guide: Vec<usize> =
        s.get("guide", "").split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let fixed: Option<Vec<usize>> = s
        .o
        .get("path")
        .map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    sched::WRITER_PREF.store(wp != 0, SeqCst);
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut order: Vec<(String, Vec<Ev>, String, String)> = vec![];
    let mut execs = 0;
    let mut exhausted = false;
    let mut prefix: Vec<usize> = fixed.clone().unwrap_or_default();
    let t0 = std::time::Instant::now();
    loop {
        let plan = Plan {
            mode: match mode.as_str() {
                "dfs" => Mode::Dfs,
                "guided" => Mode::Guided,
                "starve" => Mode::Starve(s.num("gap", 1) as usize),
                _ => Mode::Random([100, 250, 500, 800][execs % 4]),
            },
            preemptions: pb,
            spurious: spur,
            prefix: prefix.clone(),
            guide: guide.clone(),
            seed: seed.wrapping_add(execs as u64 * 7919),
            max_steps: steps,
        };
        let (_o, trail, ev) = run_once::<K>(s, plan, native);
        execs += 1;
        let ev = canon(&ev);
        let key = render(&ev);
        let e = seen.entry(key.clone()).or_insert(0);
        *e += 1;
        if *e == 1 {
            let path: Vec<String> = trail.iter().map(|c| c.taken.to_string()).collect();
            let panics = PANICS.lock().unwrap_or_else(|e| e.into_inner()).join("; ");
            order.push((key, ev, path.join(","), panics));
        }
        if fixed.is_some() || mode == "guided" || mode == "starve" {
            break;
        }
        if mode == "dfs" && !native {
            match sched::next_prefix(&trail) {
                Some(p) => prefix = p,
                None => {
                    exhausted = true;
                    break;
                }
            }
        }
        if execs >= max || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    for (key, ev, path, panics) in &order {
        *PANICS.lock().unwrap_or_else(|e| e.into_inner()) =
            if panics.is_empty() { vec![] } else { vec![panics.clone()] };
        emit(s, ev, path, seen[key]);
    }
    emit_summary(s, execs, order.len(), exhausted, false);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog::watch();
    let native = std::env::var("CONC_NATIVE").is_ok();
    sched::set_native(native);
    fam::warm_up();
    let stdin = std::io::stdin();
    let deadline = std::env::var("CONC_SECS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
    let t0 = std::time::Instant::now();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() || line.starts_with('#') {
            continue;
        }
        if t0.elapsed().as_secs() >= deadline {
            println!("SKIP {}", line);
            continue;
        }
        let s = parse(&line);
        match s.get("kind", "counter").as_str() {
            "counter" => scenario::<measured::metric::counter::CounterState>(&s, native),
            "gauge" => scenario::<measured::metric::gauge::GaugeState>(&s, native),
            "fgauge" => scenario::<measured::metric::gauge::FloatGaugeState>(&s, native),
            "hist" => scenario::<measured::metric::histogram::HistogramState<2>>(&s, native),
            k => panic!("bad kind {k}"),
        }
        let _ = std::io::stdout().flush();
    }
    println!("END {}", sched::STEPS.load(SeqCst));
}
