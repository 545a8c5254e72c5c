//! A controlled scheduler: exactly one registered thread runs at a time, and every
//! synchronisation operation of the code under test is a point where another may be chosen.
//! Threads that are not registered (set-up, final phase) are never interrupted.

use ::std::cell::{Cell, RefCell};
use ::std::collections::HashSet;
use ::std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use ::std::sync::{Condvar, Mutex};

pub const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Absent,
    Runnable,
    Blocked(usize),
    Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// systematic: replay `path`, then default choices, recording alternatives
    Dfs,
    /// uniformly random walk with the given switch probability in 1/1000
    Random(u32),
    /// follow a list of thread ids where possible
    Guided,
    /// thread 0 takes this many steps (0: a number that varies), then another one a whole call, and so on
    Starve(usize),
}

/// One decision: which option was taken, how many there were.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Choice {
    pub taken: usize,
    pub options: usize,
}

pub struct Plan {
    pub mode: Mode,
    pub preemptions: usize,
    pub spurious: usize,
    pub prefix: Vec<usize>,
    pub guide: Vec<usize>,
    pub seed: u64,
    pub max_steps: usize,
}

struct Inner {
    st: [St; MAXT],
    cur: usize,
    plan: Plan,
    trail: Vec<Choice>,
    preempt_used: usize,
    spur_used: usize,
    rng: u64,
    steps: usize,
    gpos: usize,
    vsteps: usize,
    gap: usize,
    calls: usize,
    started: bool,
    /// 0 running, 1 all done, 2 deadlock, 3 step limit
    end: u8,
    spun: [u32; MAXT],
}

pub struct Global {
    m: Mutex<Inner>,
    cv: [Condvar; MAXT],
    main: Condvar,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static EXPECT: AtomicUsize = AtomicUsize::new(0);
pub static WRITER_PREF: AtomicBool = AtomicBool::new(true);
pub static STEPS: AtomicU64 = AtomicU64::new(0);

static G: Global = Global {
    m: Mutex::new(Inner {
        st: [St::Absent; MAXT],
        cur: usize::MAX,
        plan: Plan {
            mode: Mode::Dfs,
            preemptions: 0,
            spurious: 0,
            prefix: Vec::new(),
            guide: Vec::new(),
            seed: 0,
            max_steps: 0,
        },
        trail: Vec::new(),
        preempt_used: 0,
        spur_used: 0,
        rng: 0,
        steps: 0,
        gpos: 0,
        vsteps: 0,
        gap: 0,
        calls: 0,
        started: false,
        end: 0,
        spun: [0; MAXT],
    }),
    cv: [const { Condvar::new() }; MAXT],
    main: Condvar::new(),
};

::std::thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static SKIP: Cell<bool> = const { Cell::new(false) };
    static CLOCK: Cell<u64> = const { Cell::new(1_000_000_000) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static LOOSE: Cell<u64> = const { Cell::new(0) };
    static CALLED: Cell<bool> = const { Cell::new(false) };
    static NOSCHED: Cell<u32> = const { Cell::new(0) };
    static WARM: RefCell<HashSet<usize>> = RefCell::new(HashSet::new());
}

fn lock() -> ::std::sync::MutexGuard<'static, Inner> {
    G.m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Inner {
    fn rand(&mut self) -> u64 {
        // xorshift64*
        let mut x = self.rng | 1;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }

    /// choose among `n` options (option 0 is the default)
    fn decide(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trail.len();
        let taken = match self.plan.mode {
            Mode::Dfs => *self.plan.prefix.get(i).unwrap_or(&0),
            _ => {
                if i < self.plan.prefix.len() {
                    self.plan.prefix[i]
                } else {
                    0
                }
            }
        };
        let taken = if taken < n { taken } else { 0 };
        self.trail.push(Choice { taken, options: n });
        taken
    }

    fn pick(&mut self, me: usize, give_way: bool, boundary: bool) -> Option<usize> {
        let me_ok = me < MAXT && self.st[me] == St::Runnable;
        let mut opts: Vec<usize> = Vec::with_capacity(MAXT);
        for t in 0..MAXT {
            if t != me && self.st[t] == St::Runnable {
                opts.push(t);
            }
        }
        if opts.is_empty() && !me_ok {
            return None;
        }
        if opts.is_empty() {
            return Some(me);
        }
        let free = !me_ok || give_way;
        if let Mode::Starve(m) = self.plan.mode {
            if !free && me == 0 {
                self.vsteps += 1;
                if m == 0 && self.vsteps == 1 {
                    self.gap = [1, 2, 3, 7, 31, 65][(self.rand() % 6) as usize];
                }
                if self.vsteps < m.max(self.gap) {
                    return Some(0);
                }
                self.vsteps = 0;
                return Some(opts[self.calls % opts.len()]);
            }
            if !free && !boundary {
                return Some(me);
            }
            if boundary {
                self.calls += 1;
            }
            return Some(opts[0]);
        }
        if self.plan.mode == Mode::Guided {
            let mut all = opts.clone();
            if me_ok && !give_way {
                all.push(me);
            }
            while self.gpos < self.plan.guide.len() {
                let t = self.plan.guide[self.gpos];
                if all.contains(&t) {
                    self.gpos += 1;
                    return Some(t);
                }
                self.gpos += 1;
            }
            return Some(if me_ok && !give_way { me } else { opts[0] });
        }
        if let Mode::Random(p) = self.plan.mode {
            if self.trail.len() >= self.plan.prefix.len() {
                // record as a choice so that it can be replayed through `prefix`
                let n = if free { opts.len() } else { opts.len() + 1 };
                let taken = if free {
                    (self.rand() % opts.len() as u64) as usize
                } else if (self.rand() % 1000) < p as u64 {
                    1 + (self.rand() % opts.len() as u64) as usize
                } else {
                    0
                };
                if n > 1 {
                    self.trail.push(Choice { taken, options: n });
                }
                return Some(if free {
                    opts[taken]
                } else if taken == 0 {
                    me
                } else {
                    opts[taken - 1]
                });
            }
        }
        if free {
            // starting from the next thread in cyclic order keeps the default schedule fair
            opts.sort_by_key(|t| (t + MAXT - me.min(MAXT - 1)) % MAXT);
            let k = self.decide(opts.len());
            Some(opts[k])
        } else {
            if self.plan.mode == Mode::Dfs && self.preempt_used >= self.plan.preemptions {
                return Some(me);
            }
            let k = self.decide(opts.len() + 1);
            if k == 0 {
                Some(me)
            } else {
                self.preempt_used += 1;
                Some(opts[k - 1])
            }
        }
    }
}

fn switch(mut g: ::std::sync::MutexGuard<'static, Inner>, me: usize, give_way: bool, boundary: bool) {
    g.steps += 1;
    if g.steps > g.plan.max_steps && g.end == 0 {
        g.end = 3;
        G.main.notify_all();
        // the process is about to be replaced: park for ever
        drop(g);
        loop {
            ::std::thread::park();
        }
    }
    match g.pick(me, give_way, boundary) {
        Some(t) => {
            if t == me {
                return;
            }
            g.cur = t;
            G.cv[t].notify_one();
        }
        None => {
            g.end = if g.st.iter().any(|s| matches!(s, St::Blocked(_))) { 2 } else { 1 };
            g.cur = usize::MAX;
            G.main.notify_all();
        }
    }
    if me < MAXT && g.st[me] == St::Done {
        return;
    }
    while g.cur != me {
        g = G.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

#[inline]
pub fn tid() -> Option<usize> {
    let t = TID.try_with(|t| t.get()).unwrap_or(usize::MAX);
    if t < MAXT && NOSCHED.with(|n| n.get()) == 0 {
        Some(t)
    } else {
        None
    }
}

/// A point at which another thread may run.
#[inline]
pub fn yield_point() {
    if let Some(me) = tid() {
        if SKIP.with(|s| s.replace(false)) {
            return;
        }
        switch(lock(), me, false, false);
    } else if !native() {
        // nobody else runs: an operation that takes this many steps waits for nothing that will come
        let n = LOOSE.with(|l| {
            l.set(l.get() + 1);
            l.get()
        });
        if n > 2_000_000 && TID.try_with(|t| t.get()).unwrap_or(0) == usize::MAX {
            LOOSE.with(|l| l.set(0));
            panic!("UNBOUNDED: the operation does not end");
        }
    }
}

/// A yield that lets the next synchronisation operation proceed without another one.
pub fn yield_before_call() {
    if let Some(me) = tid() {
        SKIP.with(|s| s.set(false));
        let again = CALLED.with(|c| c.replace(false));
        switch(lock(), me, false, again);
        SKIP.with(|s| s.set(true));
    }
}

pub fn end_call() {
    LOOSE.with(|l| l.set(0));
    SKIP.with(|s| s.set(false));
    CALLED.with(|c| c.set(true));
}

/// Busy waiting: others go first.
pub fn yield_spin() {
    if let Some(me) = tid() {
        SKIP.with(|s| s.set(false));
        switch(lock(), me, true, false);
    } else {
        ::std::thread::yield_now();
    }
}

/// Should a weak compare-exchange fail although the values match?
pub fn spurious() -> bool {
    if tid().is_none() {
        return false;
    }
    let mut g = lock();
    if g.spur_used >= g.plan.spurious {
        return false;
    }
    let r = match g.plan.mode {
        Mode::Random(_) if g.trail.len() >= g.plan.prefix.len() => {
            let r = (g.rand() % 8 == 0) as usize;
            g.trail.push(Choice { taken: r, options: 2 });
            r
        }
        Mode::Guided | Mode::Starve(_) => 1,
        _ => g.decide(2),
    };
    if r == 1 {
        g.spur_used += 1;
        true
    } else {
        false
    }
}

/// Wait until `try_it` succeeds; between attempts the thread is blocked on `rid`.
pub fn block_on<T>(rid: usize, mut try_it: impl FnMut() -> Option<T>) -> T {
    loop {
        if let Some(x) = try_it() {
            return x;
        }
        match tid() {
            Some(me) => {
                let mut g = lock();
                g.st[me] = St::Blocked(rid);
                switch(g, me, false, false);
            }
            None => {
                if ACTIVE.load(SeqCst) || native() {
                    ::std::thread::yield_now();
                } else {
                    panic!("SELF-DEADLOCK: a lock that is held is waited for and nobody else is running");
                }
            }
        }
    }
}

static NATIVE: AtomicBool = AtomicBool::new(false);
pub fn set_native(b: bool) {
    NATIVE.store(b, SeqCst);
}
fn native() -> bool {
    NATIVE.load(SeqCst)
}

/// Whoever is blocked on `rid` may try again.
pub fn wake(rid: usize) {
    if TID.try_with(|t| t.get()).unwrap_or(usize::MAX) == usize::MAX {
        return;
    }
    let mut g = lock();
    for s in g.st.iter_mut() {
        if *s == St::Blocked(rid) {
            *s = St::Runnable;
        }
    }
}

/// Run `f` without scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            NOSCHED.with(|n| n.set(n.get() - 1));
        }
    }
    NOSCHED.with(|n| n.set(n.get() + 1));
    let _d = D;
    f()
}

pub fn clock() -> u64 {
    CLOCK.with(|c| c.get())
}
/// by how much the clock moves when it is read
pub fn tick() -> u64 {
    TICK.with(|c| c.get())
}
pub fn set_tick(x: u64) {
    TICK.with(|c| c.set(x));
}
pub fn set_clock(x: u64) {
    CLOCK.with(|c| c.set(x));
}

// ---- the driver's side ----

/// Prepare an execution with `n` threads.
pub fn begin(n: usize, plan: Plan) {
    let mut g = lock();
    g.st = [St::Absent; MAXT];
    g.cur = usize::MAX;
    g.rng = plan.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    g.plan = plan;
    g.trail.clear();
    g.preempt_used = 0;
    g.spur_used = 0;
    g.steps = 0;
    g.gpos = 0;
    g.vsteps = 0;
    g.gap = 0;
    g.calls = 0;
    g.end = 0;
    g.started = false;
    EXPECT.store(n, SeqCst);
    ACTIVE.store(true, SeqCst);
}

/// Called first thing in each controlled thread; returns when it is scheduled.
pub fn enter(me: usize) {
    TID.with(|t| t.set(me));
    SKIP.with(|s| s.set(false));
    let mut g = lock();
    g.st[me] = St::Runnable;
    G.main.notify_all();
    while g.cur != me {
        g = G.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// Called last thing in each controlled thread.
pub fn leave() {
    let me = TID.with(|t| t.replace(usize::MAX));
    let mut g = lock();
    g.st[me] = St::Done;
    // joining threads
    for s in g.st.iter_mut() {
        if *s == St::Blocked(JOIN) {
            *s = St::Runnable;
        }
    }
    switch(g, me, false, false);
}
const JOIN: usize = 1;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Outcome {
    Done,
    Deadlock,
    Steps,
    Hang,
}

/// Start the threads (once all have entered) and wait for the end of the execution.
pub fn run() -> (Outcome, Vec<Choice>) {
    let n = EXPECT.load(SeqCst);
    let mut g = lock();
    while g.st.iter().filter(|s| **s == St::Runnable).count() < n {
        g = G.main.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g.started = true;
    let first = g.pick(usize::MAX, false, false).unwrap_or(0);
    g.cur = first;
    G.cv[first].notify_one();
    let t0 = ::std::time::Instant::now();
    while g.end == 0 {
        let (g2, to) = G
            .main
            .wait_timeout(g, ::std::time::Duration::from_secs(20))
            .unwrap_or_else(|e| e.into_inner());
        g = g2;
        if to.timed_out() && g.end == 0 && t0.elapsed().as_secs() >= 60 {
            return (Outcome::Hang, g.trail.clone());
        }
    }
    STEPS.fetch_add(g.steps as u64, SeqCst);
    ACTIVE.store(false, SeqCst);
    let o = match g.end {
        1 => Outcome::Done,
        2 => Outcome::Deadlock,
        _ => Outcome::Steps,
    };
    (o, g.trail.clone())
}

/// The next prefix in depth-first order, or None when the tree is exhausted.
pub fn next_prefix(trail: &[Choice]) -> Option<Vec<usize>> {
    let mut v: Vec<Choice> = trail.to_vec();
    while let Some(c) = v.pop() {
        if c.taken + 1 < c.options {
            let mut p: Vec<usize> = v.iter().map(|c| c.taken).collect();
            p.push(c.taken + 1);
            return Some(p);
        }
    }
    None
}
