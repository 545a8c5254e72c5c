//! The families under test and the operations on them, uniformly over metric kinds.
use crate::Op;
use measured::label::{LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::histogram::{HistogramState, HistogramTimer, HistogramVecTimer, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{
    Metric, MetricEncoding, MetricFamilyEncoding, MetricLockGuard, MetricMut, MetricType, MetricVec,
};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::LabelGroup;
use std::cell::UnsafeCell;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;
use vstd::time::Instant;
use vstd::sched;

pub const INJECTED: &str = "injected";
/// floats and times are multiples of FMUL / 512 (of a second; exact in nanoseconds), normally of a quarter
pub static FMUL: AtomicU64 = AtomicU64::new(128);
fn fmul() -> u64 {
    FMUL.load(SeqCst)
}
fn nanos(x: i64) -> u64 {
    x as u64 * fmul() * 1_953_125
}
/// the bounds of histograms: 4 and 8 units
fn bounds() -> [f64; 2] {
    [fl(4), fl(8)]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U {
    pub id: u32,
    same: bool,
}
impl Hash for U {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if self.same {
            h.write_u32(7)
        } else {
            h.write_u32(self.id)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Lab(pub u32);
struct Num(u32);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
impl LabelGroup for Lab {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("l"), &Num(self.0));
    }
}
pub struct LSet {
    pub n: usize,
    pub same: bool,
    pub bounded: bool,
}
/// what `LSet::default()` is in the current scenario: (labels, same hash, bounded)
static DEFAULT_SET: Mutex<(usize, bool, bool)> = Mutex::new((2, false, true));
impl Default for LSet {
    fn default() -> Self {
        let (n, same, bounded) = *DEFAULT_SET.lock().unwrap();
        LSet { n, same, bounded }
    }
}
impl LabelGroupSet for LSet {
    type Group<'a> = Lab;
    fn cardinality(&self) -> Option<usize> {
        self.bounded.then_some(self.n)
    }
    fn encode_dense(&self, v: U) -> Option<usize> {
        Some(v.id as usize)
    }
    fn decode_dense(&self, v: usize) -> Lab {
        Lab(v as u32)
    }
    type Unique = U;
    fn encode(&self, v: Lab) -> Option<U> {
        ((v.0 as usize) < self.n).then_some(U { id: v.0, same: self.same })
    }
    fn decode(&self, v: &U) -> Lab {
        Lab(v.id)
    }
}

/// A writer during whose writes other threads may run; optionally panics at the n-th write.
pub struct YieldW {
    pub buf: Vec<u8>,
    pub panic_at: i64,
}
impl Write for YieldW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.contains(&b'\n') {
            sched::yield_point();
        }
        self.panic_at -= 1;
        if self.panic_at == 0 {
            std::panic::panic_any(INJECTED);
        }
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub enum Fam<K: MetricType> {
    V(MetricVec<K, LSet>),
    One(Metric<K>),
}

/// Everything reachable from a family is shared between the controlled threads.
pub struct Shared<K: MetricType>(UnsafeCell<Fam<K>>);
unsafe impl<K: MetricType> Sync for Shared<K> {}
impl<K: Kind> Shared<K> {
    pub fn build(rep: &str, n: usize, hash: &str) -> Self {
        Shared(UnsafeCell::new(Fam::build(rep, n, hash)))
    }
    fn get(&self) -> &Fam<K> {
        unsafe { &*self.0.get() }
    }
    /// only for histories of one thread, at points where it holds neither a guard nor a timer
    #[allow(clippy::mut_from_ref)]
    fn get_mut(&self) -> &mut Fam<K> {
        unsafe { &mut *self.0.get() }
    }
}

/// Counters and integer gauges live in a ring: a scenario may multiply all numbers by a
/// constant (and divide by it when reading), so that values use all 64 bits and wrap. With an
/// even constant they are known modulo a power of two only.
pub static MUL: AtomicU64 = AtomicU64::new(1);
fn mul(x: i64) -> i64 {
    (x as u64).wrapping_mul(MUL.load(SeqCst)) as i64
}
fn unmul(x: i64) -> i64 {
    let m = MUL.load(SeqCst);
    let s = m.trailing_zeros();
    let m = m >> s;
    let mut inv = 1u64;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(inv)));
    }
    if s == 0 {
        return (x as u64).wrapping_mul(inv) as i64;
    }
    if (x as u64).trailing_zeros() < s {
        return i64::MAX;
    }
    (((x as u64) >> s).wrapping_mul(inv) & (u64::MAX >> s)) as i64
}

pub struct Ctx<'a, K: Kind> {
    guard: Option<MetricLockGuard<'a, K>>,
    timer: Option<K::Timer<'a>>,
}
impl<'a, K: Kind> Ctx<'a, K> {
    pub fn new() -> Self {
        Ctx { guard: None, timer: None }
    }
}

pub trait Kind:
    MetricType + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<YieldW>> + 'static
{
    type Timer<'a>;
    const HIST: usize;
    /// the single sample is exported scaled
    const FLOAT: bool = false;
    fn meta() -> Self::Metadata;
    fn add(fam: &Fam<Self>, l: Lab, x: i64);
    fn add1(fam: &Fam<Self>, l: Lab) {
        Self::add(fam, l, 1)
    }
    fn sub(_fam: &Fam<Self>, _l: Lab, _x: i64) {
        unimplemented!()
    }
    fn set(_fam: &Fam<Self>, _l: Lab, _x: i64) {
        unimplemented!()
    }
    fn gfin(g: MetricLockGuard<'_, Self>, x: i64);
    fn gadd(g: &MetricLockGuard<'_, Self>, x: i64);
    fn gread(g: &MetricLockGuard<'_, Self>) -> Vec<i64>;
    fn raw(self) -> Vec<i64>;
    /// the operation through a guard; `how`: "", or for histograms a duration ("d") or one measured ("s")
    fn via_guard(g: MetricLockGuard<'_, Self>, name: &str, x: i64, how: &str);
    /// the operation through an exclusive reference to the metric
    fn via_mut(m: MetricMut<'_, Self>, name: &str, x: i64, how: &str);
    /// the operation through the methods of an exclusive family or of a shared one
    fn via_fam(fam: &mut Fam<Self>, l: Lab, name: &str, x: i64, how: &str);
    /// constructors that need default metadata
    fn build_default(_rep: &str, _ls: impl Fn(bool) -> LSet) -> Option<Fam<Self>> {
        None
    }
    fn tstart<'a>(_fam: &'a Fam<Self>, _l: Lab) -> Self::Timer<'a> {
        unimplemented!()
    }
    fn tobs(_t: Self::Timer<'_>) -> Duration {
        unimplemented!()
    }
    fn tforget(_t: Self::Timer<'_>) {
        unimplemented!()
    }
}

/// the three numbers that stand for themselves (spec/Floats.tla)
const NAN: i64 = 2_000_000_000;
const INF: i64 = 1_900_000_000;
pub fn special(x: i64) -> bool {
    matches!(x, NAN | INF) || x == -INF
}
fn fl(x: i64) -> f64 {
    match x {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        x if x == -INF => f64::NEG_INFINITY,
        x => x as f64 * fmul() as f64 / 512.0,
    }
}
fn small_u(x: u64) -> i64 {
    small_i(x as i64)
}
fn small_i(x: i64) -> i64 {
    if x.unsigned_abs() < 1 << 30 {
        x
    } else {
        -888888
    }
}
fn small_f(x: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x.is_infinite() {
        return if x > 0.0 { INF } else { -INF };
    }
    let y = x * 512.0 / fmul() as f64;
    if y.fract() == 0.0 && y.abs() < (1 << 30) as f64 {
        y as i64
    } else {
        -888888
    }
}

impl Kind for CounterState {
    type Timer<'a> = ();
    const HIST: usize = 0;
    fn meta() {}
    fn add(fam: &Fam<Self>, l: Lab, x: i64) {
        match fam {
            Fam::V(v) => v.inc_by(l, x as u64),
            Fam::One(m) => m.inc_by(x as u64),
        }
    }
    fn add1(fam: &Fam<Self>, l: Lab) {
        match fam {
            Fam::V(v) => v.inc(l),
            Fam::One(m) => m.inc(),
        }
    }
    fn gfin(g: MetricLockGuard<'_, Self>, x: i64) {
        g.inc_by(x as u64)
    }
    fn gadd(g: &MetricLockGuard<'_, Self>, x: i64) {
        if x == 1 {
            g.inc()
        } else {
            g.inc_by(x as u64)
        }
    }
    fn gread(g: &MetricLockGuard<'_, Self>) -> Vec<i64> {
        vec![small_i(unmul(g.count.load(std::sync::atomic::Ordering::SeqCst) as i64))]
    }
    fn raw(self) -> Vec<i64> {
        vec![small_i(unmul(self.count.into_inner() as i64))]
    }
    fn via_guard(g: MetricLockGuard<'_, Self>, name: &str, x: i64, _how: &str) {
        match (name, x) {
            ("upd", 1) => g.inc(),
            ("upd", x) => g.inc_by(x as u64),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_mut(m: MetricMut<'_, Self>, name: &str, x: i64, _how: &str) {
        match (name, x) {
            ("upd", 1) => m.inc(),
            ("upd", x) => m.inc_by(x as u64),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_fam(fam: &mut Fam<Self>, l: Lab, name: &str, x: i64, _how: &str) {
        match (fam, name, x) {
            (Fam::V(v), "upd", 1) => v.inc_mut(l),
            (Fam::V(v), "upd", x) => v.inc_by_mut(l, x as u64),
            (Fam::One(m), "upd", 1) => m.inc_mut(),
            (Fam::One(m), "upd", x) => m.inc_by_mut(x as u64),
            _ => panic!("bad op {name}"),
        }
    }
    fn build_default(rep: &str, ls: impl Fn(bool) -> LSet) -> Option<Fam<Self>> {
        build_default(rep, ls)
    }
}
impl Kind for GaugeState {
    type Timer<'a> = ();
    const HIST: usize = 0;
    fn meta() {}
    fn add(fam: &Fam<Self>, l: Lab, x: i64) {
        match fam {
            Fam::V(v) => v.inc_by(l, x),
            Fam::One(m) => m.inc_by(x),
        }
    }
    fn add1(fam: &Fam<Self>, l: Lab) {
        match fam {
            Fam::V(v) => v.inc(l),
            Fam::One(m) => m.inc(),
        }
    }
    fn sub(fam: &Fam<Self>, l: Lab, x: i64) {
        match fam {
            Fam::V(v) if x == 1 => v.dec(l),
            Fam::V(v) => v.dec_by(l, x),
            Fam::One(m) if x == 1 => m.dec(),
            Fam::One(m) => m.dec_by(x),
        }
    }
    fn set(fam: &Fam<Self>, l: Lab, x: i64) {
        match fam {
            Fam::V(v) => v.set(l, x),
            Fam::One(m) => m.set(x),
        }
    }
    fn gfin(g: MetricLockGuard<'_, Self>, x: i64) {
        match x {
            1 => g.inc(),
            -1 => g.dec(),
            x if x < 0 => g.dec_by(x.wrapping_neg()),
            x => g.inc_by(x),
        }
    }
    fn gadd(g: &MetricLockGuard<'_, Self>, x: i64) {
        g.count.fetch_add(x, std::sync::atomic::Ordering::SeqCst);
    }
    fn gread(g: &MetricLockGuard<'_, Self>) -> Vec<i64> {
        vec![small_i(unmul(g.count.load(std::sync::atomic::Ordering::SeqCst) as i64))]
    }
    fn raw(self) -> Vec<i64> {
        vec![small_i(unmul(self.count.into_inner() as i64))]
    }
    fn via_guard(g: MetricLockGuard<'_, Self>, name: &str, x: i64, _how: &str) {
        
        match name {
            "upd" if x == 1 => g.inc(),
            "upd" => g.inc_by(x),
            "sub" if x == 1 => g.dec(),
            "sub" => g.dec_by(x),
            "set" => g.set(x),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_mut(m: MetricMut<'_, Self>, name: &str, x: i64, _how: &str) {
        
        match name {
            "upd" if x == 1 => m.inc(),
            "upd" => m.inc_by(x),
            "sub" if x == 1 => m.dec(),
            "sub" => m.dec_by(x),
            "set" => m.set(x),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_fam(fam: &mut Fam<Self>, l: Lab, name: &str, x: i64, how: &str) {
        // there are no such methods
        match fam {
            Fam::V(v) => Self::via_mut(v.get_metric_mut(v.with_labels(l)), name, x, how),
            Fam::One(m) => Self::via_mut(m.get_metric_mut(), name, x, how),
        }
    }
    fn build_default(rep: &str, ls: impl Fn(bool) -> LSet) -> Option<Fam<Self>> {
        build_default(rep, ls)
    }
}
impl Kind for FloatGaugeState {
    type Timer<'a> = ();
    const HIST: usize = 0;
    const FLOAT: bool = true;
    fn meta() {}
    fn add(fam: &Fam<Self>, l: Lab, x: i64) {
        let x = fl(x);
        match fam {
            Fam::V(v) => v.inc_by(l, x),
            Fam::One(m) => m.inc_by(x),
        }
    }
    fn add1(fam: &Fam<Self>, l: Lab) {
        match fam {
            Fam::V(v) => v.inc(l),
            Fam::One(m) => m.inc(),
        }
    }
    fn sub(fam: &Fam<Self>, l: Lab, x: i64) {
        let x = fl(x);
        match fam {
            Fam::V(v) if x == 1.0 => v.dec(l),
            Fam::V(v) => v.dec_by(l, x),
            Fam::One(m) if x == 1.0 => m.dec(),
            Fam::One(m) => m.dec_by(x),
        }
    }
    fn set(fam: &Fam<Self>, l: Lab, x: i64) {
        let x = fl(x);
        match fam {
            Fam::V(v) => v.set(l, x),
            Fam::One(m) => m.set(x),
        }
    }
    fn gfin(g: MetricLockGuard<'_, Self>, x: i64) {
        let x = fl(x);
        if x == 1.0 {
            g.inc()
        } else if x == -1.0 {
            g.dec()
        } else if x < 0.0 {
            g.dec_by(-x)
        } else {
            g.inc_by(x)
        }
    }
    fn gadd(g: &MetricLockGuard<'_, Self>, x: i64) {
        g.count.inc_by(fl(x))
    }
    fn gread(g: &MetricLockGuard<'_, Self>) -> Vec<i64> {
        vec![small_f(g.count.get())]
    }
    fn raw(mut self) -> Vec<i64> {
        vec![small_f(self.count.get_ex())]
    }
    fn via_guard(g: MetricLockGuard<'_, Self>, name: &str, x: i64, _how: &str) {
        let x = fl(x);
        match name {
            "upd" if x == 1.0 => g.inc(),
            "upd" => g.inc_by(x),
            "sub" if x == 1.0 => g.dec(),
            "sub" => g.dec_by(x),
            "set" => g.set(x),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_mut(m: MetricMut<'_, Self>, name: &str, x: i64, _how: &str) {
        let x = fl(x);
        match name {
            "upd" if x == 1.0 => m.inc(),
            "upd" => m.inc_by(x),
            "sub" if x == 1.0 => m.dec(),
            "sub" => m.dec_by(x),
            "set" => m.set(x),
            _ => panic!("bad op {name}"),
        }
    }
    fn via_fam(fam: &mut Fam<Self>, l: Lab, name: &str, x: i64, how: &str) {
        // there are no such methods
        match fam {
            Fam::V(v) => Self::via_mut(v.get_metric_mut(v.with_labels(l)), name, x, how),
            Fam::One(m) => Self::via_mut(m.get_metric_mut(), name, x, how),
        }
    }
    fn build_default(rep: &str, ls: impl Fn(bool) -> LSet) -> Option<Fam<Self>> {
        build_default(rep, ls)
    }
}

pub enum HT<'a> {
    V(HistogramVecTimer<'a, LSet, 2>),
    One(HistogramTimer<'a, 2>),
}
impl Kind for HistogramState<2> {
    type Timer<'a> = HT<'a>;
    const HIST: usize = 2;
    fn meta() -> Thresholds<2> {
        Thresholds::with_buckets(bounds())
    }
    fn add(fam: &Fam<Self>, l: Lab, x: i64) {
        let x = fl(x);
        match fam {
            Fam::V(v) => v.observe(l, x),
            Fam::One(m) => m.observe(x),
        }
    }
    fn gfin(g: MetricLockGuard<'_, Self>, x: i64) {
        if x >= 0 && !special(x) {
            g.observe_duration(Duration::from_secs_f64(fl(x)))
        } else {
            g.observe(fl(x))
        }
    }
    fn gadd(g: &MetricLockGuard<'_, Self>, x: i64) {
        let x = fl(x);
        g.inner.read().observe(bucket(x), x)
    }
    fn gread(_g: &MetricLockGuard<'_, Self>) -> Vec<i64> {
        unimplemented!()
    }
    fn raw(self) -> Vec<i64> {
        let mut i = self.inner.into_inner();
        let mut v: Vec<i64> = i.buckets.iter_mut().map(|b| small_u(*b.get_mut())).collect();
        v.push(small_u(*i.inf.get_mut()));
        v.push(small_f(i.sum.get_ex()));
        v
    }
    fn tstart<'a>(fam: &'a Fam<Self>, l: Lab) -> HT<'a> {
        match fam {
            Fam::V(v) => HT::V(v.start_timer(l)),
            Fam::One(m) => HT::One(m.start_timer()),
        }
    }
    fn tobs(t: HT<'_>) -> Duration {
        match t {
            HT::V(t) => t.observe(),
            HT::One(t) => t.observe(),
        }
    }
    fn tforget(t: HT<'_>) {
        match t {
            HT::V(t) => t.forget(),
            HT::One(t) => t.forget(),
        }
    }
    fn via_guard(g: MetricLockGuard<'_, Self>, _name: &str, x: i64, how: &str) {
        let f = fl(x);
        match how {
            "d" => g.observe_duration(Duration::from_secs_f64(f)),
            "s" => since(x, |i| g.observe_duration_since(i)),
            "i" => Self::gadd(&g, x),
            _ => g.observe(f),
        }
    }
    fn via_mut(m: MetricMut<'_, Self>, _name: &str, x: i64, how: &str) {
        let f = fl(x);
        match how {
            "d" => m.observe_duration(Duration::from_secs_f64(f)),
            "s" => since(x, |i| m.observe_duration_since(i)),
            "i" => {
                let mut m = m;
                m.inner.get_mut().observe_mut(bucket(f), f)
            }
            _ => m.observe(f),
        }
    }
    fn via_fam(fam: &mut Fam<Self>, l: Lab, name: &str, x: i64, how: &str) {
        let f = fl(x);
        match (fam, how) {
            (Fam::V(v), "d") => v.observe_duration(l, Duration::from_secs_f64(f)),
            (Fam::V(v), "s") => since(x, |i| v.observe_duration_since(l, i)),
            (Fam::V(v), _) => v.observe(l, f),
            (Fam::One(m), "") => m.observe(f),
            (Fam::One(m), how) => Self::via_guard(m.get_metric(), name, x, how),
        }
    }
}

/// observes with a clock that is x ahead; the returned duration is the one observed
fn since(x: i64, f: impl FnOnce(Instant) -> Duration) {
    let i = Instant::now();
    let now = sched::clock();
    sched::set_clock(now + nanos(x));
    let d = f(i);
    sched::set_clock(now);
    assert_eq!(d, Duration::from_nanos(nanos(x)), "duration");
}

fn build_default<K: Kind>(rep: &str, ls: impl Fn(bool) -> LSet) -> Option<Fam<K>>
where
    K::Metadata: Default,
{
    Some(match rep {
        "sparse:ls" => Fam::V(MetricVec::sparse_with_label_set(ls(true))),
        "sparse:new" => Fam::V(MetricVec::sparse()),
        "unbounded:ls" => Fam::V(MetricVec::with_label_set(ls(false))),
        "unbounded:new" => Fam::V(MetricVec::new()),
        "unbounded:dflt" => Fam::V(MetricVec::default()),
        "dense:ls" => Fam::V(MetricVec::dense_with_label_set(ls(true))),
        "dense:new" => Fam::V(MetricVec::dense()),
        "auto:ls" => Fam::V(MetricVec::with_label_set(ls(true))),
        "auto:new" => Fam::V(MetricVec::new()),
        "auto:dflt" => Fam::V(MetricVec::default()),
        "one:new" => Fam::One(Metric::new()),
        "one:dflt" => Fam::One(Metric::default()),
        _ => return None,
    })
}

impl<K: Kind> Fam<K> {
    pub fn build(rep: &str, n: usize, hash: &str) -> Self {
        let same = hash == "same";
        let ls = |bounded| LSet { n, same, bounded };
        *DEFAULT_SET.lock().unwrap() = (n, same, !rep.starts_with("unbounded"));
        if let Some(f) = K::build_default(rep, ls) {
            return f;
        }
        match rep {
            "sparse:meta" => Fam::V(MetricVec::sparse_with_metadata(K::meta())),
            "unbounded:meta" => Fam::V(MetricVec::with_metadata(K::meta())),
            "dense:meta" => Fam::V(MetricVec::dense_with_metadata(K::meta())),
            "auto:meta" => Fam::V(MetricVec::with_metadata(K::meta())),
            "sparse" => Fam::V(MetricVec::sparse_with_label_set_and_metadata(ls(true), K::meta())),
            "unbounded" => Fam::V(MetricVec::with_label_set_and_metadata(ls(false), K::meta())),
            "dense" => Fam::V(MetricVec::dense_with_label_set_and_metadata(ls(true), K::meta())),
            "dense0" => {
                let mut v = MetricVec::dense_with_label_set_and_metadata(ls(true), K::meta());
                v.init_all_dense();
                Fam::V(v)
            }
            "auto" => Fam::V(MetricVec::with_label_set_and_metadata(ls(true), K::meta())),
            "one" => Fam::One(Metric::with_metadata(K::meta())),
            r => panic!("bad rep {r}"),
        }
    }
}

/// statics inside the library are initialised before any controlled run
pub fn warm_up() {
    for r in ["sparse", "dense", "one"] {
        let f = Fam::<CounterState>::build(r, 2, "spread");
        CounterState::add(&f, Lab(0), 1);
        let f = Shared::<HistogramState<2>>::build(r, 2, "spread");
        <HistogramState<2> as Kind>::add(f.get(), Lab(0), 1);
        let mut c = Ctx::new();
        exec(&f, &mut c, &Op { name: "scrape".into(), via: String::new(), l: 0, x: 0 });
    }
}

/// rows of [label, value...]; unreadable output gives a row the specification never accepts
fn parse_doc<K: Kind>(doc: &str) -> Vec<Vec<i64>> {
    let bad = || vec![vec![-666666]];
    // (label or -1) -> rows, in order of appearance
    let mut rows: Vec<(i64, Vec<(String, String, String)>)> = vec![];
    for line in doc.lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let Some((head, val)) = line.rsplit_once(' ') else { return bad() };
        let (name, labs) = match head.split_once('{') {
            Some((n, l)) => match l.strip_suffix('}') {
                Some(l) => (n, l),
                None => return bad(),
            },
            None => (head, ""),
        };
        let mut lab = -1;
        let mut le = String::new();
        for kv in labs.split(',').filter(|x| !x.is_empty()) {
            let Some((k, v)) = kv.split_once('=') else { return bad() };
            let v = v.trim_matches('"');
            match k {
                "l" => match v.parse() {
                    Ok(v) => lab = v,
                    Err(_) => return bad(),
                },
                "le" => le = v.to_string(),
                _ => return bad(),
            }
        }
        let entry = (name.to_string(), le, val.to_string());
        // a series is a maximal run of lines with the same label; a histogram series ends with _count
        let fresh = match rows.last() {
            None => true,
            Some((l, es)) => {
                *l != lab || K::HIST == 0 || es.len() == K::HIST + 3
            }
        };
        if fresh {
            rows.push((lab, vec![]));
        }
        rows.last_mut().unwrap().1.push(entry);
    }
    let mut out = vec![];
    for (lab, es) in rows {
        let mut row = vec![if lab == -1 { 0 } else { lab }];
        if K::HIST == 0 {
            if es.len() != 1 || es[0].0 != "m" {
                return bad();
            }
            row.push(match (K::FLOAT, es[0].2.parse::<i64>(), es[0].2.parse::<u64>()) {
                (false, Ok(x), _) => small_i(unmul(x)),
                (false, _, Ok(x)) => small_i(unmul(x as i64)),
                _ => num(&es[0].2, K::FLOAT),
            });
        } else {
            let find = |n: &str, le: Option<f64>| {
                let m: Vec<_> = es
                    .iter()
                    .filter(|e| {
                        e.0 == n && le.map_or(e.1.is_empty(), |x| e.1.parse::<f64>() == Ok(x))
                    })
                    .collect();
                if m.len() == 1 {
                    Some(m[0].2.clone())
                } else {
                    None
                }
            };
            if es.len() != K::HIST + 3 {
                return bad();
            }
            for le in bounds().into_iter().chain([f64::INFINITY]) {
                match find("m_bucket", Some(le)) {
                    Some(v) => row.push(num(&v, false)),
                    None => return bad(),
                }
            }
            match (find("m_count", None), find("m_sum", None)) {
                (Some(c), Some(s)) => {
                    row.push(num(&c, false));
                    row.push(num(&s, true));
                }
                _ => return bad(),
            }
        }
        out.push(row);
    }
    out.sort();
    out
}

fn num(s: &str, float: bool) -> i64 {
    if float {
        return s.parse::<f64>().map_or(-888888, small_f);
    }
    if let Ok(x) = s.parse::<i64>() {
        return small_i(x);
    }
    if let Ok(x) = s.parse::<u64>() {
        return small_u(x);
    }
    match s.parse::<f64>() {
        Ok(x) if x.fract() == 0.0 => small_i(x as i64),
        _ => -888888,
    }
}

fn name() -> &'static MetricName {
    MetricName::from_str("m")
}

fn collect<K: Kind, T: Encoding>(fam: &Fam<K>, enc: &mut T) -> Result<(), T::Err>
where
    K: MetricEncoding<T>,
{
    match fam {
        Fam::V(v) => v.collect_family_into(name(), enc),
        Fam::One(m) => m.collect_family_into(name(), enc),
    }
}

fn guard<'a, K: Kind>(fam: &'a Fam<K>, l: Lab) -> MetricLockGuard<'a, K> {
    match fam {
        Fam::V(v) => v.get_metric(v.with_labels(l)),
        Fam::One(m) => m.get_metric(),
    }
}

fn bucket(x: f64) -> usize {
    bounds().iter().position(|le| x <= *le).unwrap_or(2)
}

fn dur(d: Duration) -> i64 {
    small_f(d.as_secs_f64())
}

pub fn exec<'a, K: Kind>(shared: &'a Shared<K>, ctx: &mut Ctx<'a, K>, op: &Op) -> Vec<Vec<i64>> {
    let l = Lab(op.l as u32);
    let ring = K::HIST == 0 && !K::FLOAT && !matches!(op.name.as_str(), "pscrape" | "adv");
    let x = if ring { mul(op.x) } else { op.x };
    if op.name == "init" {
        if let Fam::V(v) = shared.get_mut() {
            v.init_all_dense();
        }
        return vec![];
    }
    if let Some(path) = op.via.chars().next() {
        let (how, name) = (&op.via[1..], op.name.as_str());
        match (path, name) {
            ('g', "touch") => drop(guard(shared.get(), l)),
            ('g', _) => K::via_guard(guard(shared.get(), l), name, x, how),
            ('x', _) => {
                let m = match shared.get_mut() {
                    Fam::V(v) => v.get_metric_mut(v.with_labels(l)),
                    Fam::One(m) => m.get_metric_mut(),
                };
                match name {
                    "touch" => drop(m),
                    _ => K::via_mut(m, name, x, how),
                }
            }
            ('f', _) => K::via_fam(shared.get_mut(), l, name, x, how),
            _ => panic!("bad path {}", op.via),
        }
        return vec![];
    }
    let fam = shared.get();
    match op.name.as_str() {
        "upd" => K::add(fam, l, x),
        "upd1" => K::add1(fam, l),
        "sub" => K::sub(fam, l, x),
        "set" => K::set(fam, l, x),
        "updg" => K::gfin(guard(fam, l), x),
        "touch" => drop(guard(fam, l)),
        "rem" => {
            let r = match fam {
                Fam::V(v) => v.remove_metric(v.with_labels(l)),
                Fam::One(_) => None,
            };
            return r.map(|m| vec![m.raw()]).unwrap_or_default();
        }
        "scrape" => {
            let mut enc = BufferedTextEncoder::new();
            if collect(fam, &mut enc).is_err() {
                return vec![vec![-666666]];
            }
            let doc = enc.finish();
            return match std::str::from_utf8(&doc) {
                Ok(d) => parse_doc::<K>(d),
                Err(_) => vec![vec![-666666]],
            };
        }
        "scrapey" | "pscrape" => {
            let mut enc = TextEncoder::new(YieldW {
                buf: vec![],
                panic_at: if op.name == "pscrape" { x } else { i64::MAX },
            });
            if collect(fam, &mut enc).is_err() || enc.flush().is_err() {
                return vec![vec![-666666]];
            }
            return match std::str::from_utf8(&enc.writer.buf) {
                Ok(d) => parse_doc::<K>(d),
                Err(_) => vec![vec![-666666]],
            };
        }
        "card" => {
            return match fam {
                Fam::V(v) => {
                    let (n, b) = v.get_cardinality();
                    vec![vec![n as i64, b.map_or(-1, |b| b as i64)]]
                }
                Fam::One(_) => vec![vec![1, 1]],
            }
        }
        "acq" => ctx.guard = Some(guard(fam, l)),
        "gadd" => {
            if let Some(g) = &ctx.guard {
                K::gadd(g, x)
            }
        }
        "gread" => {
            if let Some(g) = &ctx.guard {
                return vec![K::gread(g)];
            }
        }
        "gfin" => {
            if let Some(g) = ctx.guard.take() {
                K::gfin(g, x)
            }
        }
        "rel" => ctx.guard = None,
        "tstart" => ctx.timer = Some(K::tstart(fam, l)),
        "adv" => sched::set_clock(sched::clock() + nanos(x)),
        "tobs" => {
            if let Some(t) = ctx.timer.take() {
                return vec![vec![dur(K::tobs(t))]];
            }
        }
        "tdrop" => drop(ctx.timer.take()),
        "tobsx" => {
            let now = sched::clock();
            sched::set_tick(nanos(x));
            let d = ctx.timer.take().map_or(vec![], |t| vec![vec![dur(K::tobs(t))]]);
            sched::set_tick(0);
            sched::set_clock(now);
            return d;
        }
        "tforget" => {
            if let Some(t) = ctx.timer.take() {
                K::tforget(t)
            }
        }
        "tpanic" => {
            let _t = ctx.timer.take();
            std::panic::panic_any(INJECTED);
        }
        o => panic!("bad op {o}"),
    }
    vec![]
}
