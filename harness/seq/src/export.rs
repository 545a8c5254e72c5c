//! Families, groups, encoders and writers with faults.
use crate::faulty::W;
use crate::*;
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::{ComposedGroup, Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, WithNamespace};
use measured::metric::{Metric, MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use std::time::Duration;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

// ------------------------------------------------------------------ labels

#[derive(Clone, Debug)]
pub enum Val {
    S(String),
    I(i64),
    F(f64),
}
impl LabelValue for Val {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            Val::S(s) => v.write_str(s),
            Val::I(x) => v.write_int(*x),
            Val::F(x) => v.write_float(*x),
        }
    }
}
#[derive(Clone, Copy)]
pub struct Row {
    idx: usize,
    labels: &'static [(&'static LabelName, Val)],
}
impl LabelGroup for Row {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for (n, x) in self.labels {
            v.write_value(n, x);
        }
    }
}
pub struct Rows {
    rows: Vec<Row>,
    bounded: bool,
}
impl LabelGroupSet for Rows {
    type Group<'a> = Row;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        self.bounded.then_some(self.rows.len())
    }
    fn encode_dense(&self, value: usize) -> Option<usize> {
        self.bounded.then_some(value)
    }
    fn decode_dense(&self, value: usize) -> Row {
        self.rows[value]
    }
    fn encode(&self, value: Row) -> Option<usize> {
        (value.idx < self.rows.len()).then_some(value.idx)
    }
    fn decode(&self, value: &usize) -> Row {
        self.rows[*value]
    }
}

// ------------------------------------------------------------------ families

pub enum Fm<M: MetricType> {
    One(Metric<M>),
    Vec(MetricVec<M, Rows>),
}
pub enum Family {
    C(Fm<CounterState>),
    G(Fm<GaugeState>),
    F(Fm<FloatGaugeState>),
    H0(Fm<HistogramState<0>>),
    H1(Fm<HistogramState<1>>),
    H2(Fm<HistogramState<2>>),
    H3(Fm<HistogramState<3>>),
    H5(Fm<HistogramState<5>>),
    H8(Fm<HistogramState<8>>),
    H16(Fm<HistogramState<16>>),
    H33(Fm<HistogramState<33>>),
    H130(Box<Fm<HistogramState<130>>>),
    H300(Box<Fm<HistogramState<300>>>),
}

fn mk<M: MetricType>(rep: &str, rows: Vec<Row>, md: M::Metadata) -> Fm<M> {
    let ls = Rows { rows, bounded: rep != "unbounded" };
    match rep {
        "one" => Fm::One(Metric::with_metadata(md)),
        "dense" => Fm::Vec(MetricVec::dense_with_label_set_and_metadata(ls, md)),
        "sparse" => Fm::Vec(MetricVec::sparse_with_label_set_and_metadata(ls, md)),
        _ => Fm::Vec(MetricVec::with_label_set_and_metadata(ls, md)),
    }
}
macro_rules! with_metric {
    ($f:expr, $row:expr, $g:ident => $e:expr) => {
        match $f {
            Fm::One(m) => {
                let $g = m.get_metric();
                $e
            }
            Fm::Vec(v) => {
                let row = v.get_label_set().rows[$row];
                let $g = v.get_metric(v.with_labels(row));
                $e
            }
        }
    };
}
macro_rules! with_metric_mut {
    ($f:expr, $row:expr, $g:ident => $e:expr) => {
        match $f {
            Fm::One(m) => {
                let $g = m.get_metric_mut();
                $e
            }
            Fm::Vec(v) => {
                let row = v.get_label_set().rows[$row];
                let id = v.with_labels(row);
                let $g = v.get_metric_mut(id);
                $e
            }
        }
    };
}

fn hist_op<const N: usize>(f: &mut Fm<HistogramState<N>>, row: usize, op: &str, arg: &str) {
    match op {
        // family method
        "obs" => {
            let x = float(arg);
            match f {
                Fm::One(m) => m.observe(x),
                Fm::Vec(v) => v.observe(v.get_label_set().rows[row], x),
            }
        }
        "obsg" => with_metric!(f, row, g => g.observe(float(arg))),
        // durations: exact binary fractions of a second
        "dur" => with_metric!(f, row, g => g.observe_duration(Duration::from_secs_f64(float(arg)))),
        "durm" => with_metric_mut!(f, row, g => g.observe_duration(Duration::from_secs_f64(float(arg)))),
        "durv" => {
            let d = Duration::from_secs_f64(float(arg));
            match f {
                Fm::One(m) => m.get_metric().observe_duration(d),
                Fm::Vec(v) => v.observe_duration(v.get_label_set().rows[row], d),
            }
        }
        "obsm" => with_metric_mut!(f, row, g => g.observe(float(arg))),
        "touch" => with_metric!(f, row, g => drop(g)),
        // counts of the buckets, of inf, and the sum
        "raw" => with_metric!(f, row, g => {
            let inner = g.inner.write();
            let mut it = arg.split(';');
            for b in inner.buckets.iter() {
                b.store(it.next().unwrap().parse().unwrap(), SeqCst);
            }
            inner.inf.store(it.next().unwrap().parse().unwrap(), SeqCst);
            inner.sum.set(float(it.next().unwrap()));
        }),
        _ => panic!("bad op {op}"),
    }
}

impl Family {
    fn op(&mut self, row: usize, op: &str, arg: &str) {
        match self {
            Family::C(f) => match op {
                "inc" => match f {
                    Fm::One(m) => m.inc_by(arg.parse().unwrap()),
                    Fm::Vec(v) => v.inc_by(v.get_label_set().rows[row], arg.parse().unwrap()),
                },
                "touch" => with_metric!(f, row, g => drop(g)),
                _ => panic!("bad op {op}"),
            },
            Family::G(f) => match op {
                "set" => match f {
                    Fm::One(m) => m.set(arg.parse().unwrap()),
                    Fm::Vec(v) => v.set(v.get_label_set().rows[row], arg.parse().unwrap()),
                },
                "touch" => with_metric!(f, row, g => drop(g)),
                _ => panic!("bad op {op}"),
            },
            Family::F(f) => match op {
                "set" => match f {
                    Fm::One(m) => m.set(float(arg)),
                    Fm::Vec(v) => v.set(v.get_label_set().rows[row], float(arg)),
                },
                "touch" => with_metric!(f, row, g => drop(g)),
                _ => panic!("bad op {op}"),
            },
            Family::H0(f) => hist_op(f, row, op, arg),
            Family::H1(f) => hist_op(f, row, op, arg),
            Family::H2(f) => hist_op(f, row, op, arg),
            Family::H3(f) => hist_op(f, row, op, arg),
            Family::H5(f) => hist_op(f, row, op, arg),
            Family::H8(f) => hist_op(f, row, op, arg),
            Family::H16(f) => hist_op(f, row, op, arg),
            Family::H33(f) => hist_op(f, row, op, arg),
            Family::H130(f) => hist_op(f, row, op, arg),
            Family::H300(f) => hist_op(f, row, op, arg),
        }
    }
}

fn arr<const N: usize>(v: &[f64]) -> [f64; N] {
    std::array::from_fn(|i| v[i])
}

fn thr<const N: usize>(ctor: &str, a: &[f64]) -> Thresholds<N> {
    match ctor {
        "lin" => Thresholds::linear_buckets(a[0], a[1]),
        "exp" => Thresholds::exponential_buckets(a[0], a[1]),
        _ => Thresholds::with_buckets(arr(a)),
    }
}

/// thr CTOR N args...
pub fn thresholds(w: &[&str]) -> String {
    let n: usize = w[1].parse().unwrap();
    let a: Vec<f64> = w[2..].iter().map(|s| float(s)).collect();
    macro_rules! t {
        ($($n:literal)*) => {
            match n { $($n => thr::<$n>(w[0], &a).get().to_vec(),)* _ => panic!("harness: bad N") }
        };
    }
    let le = t!(0 1 2 3 5 8 16 33 130 300);
    let s: Vec<String> = le.iter().map(|x| format!("{:016x}", x.to_bits())).collect();
    format!("thr {}", s.join(" "))
}

// ------------------------------------------------------------------ groups

/// a family, and the rows that were touched
pub struct Fa {
    fam: Family,
    touched: Vec<usize>,
}
/// one family under a name; HIST: whether the encoder can take histograms
pub struct Leaf<const HIST: bool> {
    name: &'static MetricName,
    help: Option<&'static str>,
    fa: *const Fa,
    /// how the samples are written: F by the family, W by the functions that write one value, V by those after the type
    how: char,
}
/// write one value: by the function for it, or by a state of its own
fn direct<E: Encoding>(f: &Family, row: usize, name: &MetricName, e: &mut E) -> Result<(), E::Err>
where
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
{
    macro_rules! go {
        ($f:expr, $g:ident => $v:expr, $one:path, $state:ty) => {{
            let labels: &'static [_] = match $f {
                Fm::One(_) => &[],
                Fm::Vec(v) => v.get_label_set().rows[row].labels,
            };
            let v = with_metric!($f, row, $g => $v);
            let (a, b) = labels.split_at(labels.len() / 2);
            let (a, b) = (Row { idx: 0, labels: a }, Row { idx: 0, labels: b });
            match row % 3 {
                0 => $one(e, name, a.compose_with(b), v),
                1 => <$state>::new(v).collect_into(&(), a.compose_with(b), name, e),
                _ => $one(e, name, Row { idx: 0, labels }, v),
            }
        }};
    }
    match f {
        Family::C(f) => go!(f, g => g.count.load(SeqCst), measured::metric::counter::write_counter, CounterState),
        Family::G(f) => go!(f, g => g.count.load(SeqCst), measured::metric::gauge::write_gauge, GaugeState),
        Family::F(f) => go!(f, g => g.count.get(), measured::metric::gauge::write_float_gauge, FloatGaugeState),
        _ => panic!("harness: no function for histograms"),
    }
}
impl<E: Encoding, const HIST: bool> MetricGroup<E> for Leaf<HIST>
where
    Sel<HIST>: Collect<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        if let Some(h) = self.help {
            enc.write_help(self.name, h)?;
        }
        let fa = unsafe { &*self.fa };
        match self.how {
            'F' => <Sel<HIST> as Collect<E>>::collect(&fa.fam, self.name, enc),
            how => {
                if how == 'V' {
                    <Sel<HIST> as Collect<E>>::typ(&fa.fam, self.name, enc)?;
                }
                for row in &fa.touched {
                    <Sel<HIST> as Collect<E>>::one(&fa.fam, *row, self.name, enc)?;
                }
                Ok(())
            }
        }
    }
}
pub struct Sel<const HIST: bool>;
pub trait Collect<E: Encoding> {
    fn collect(f: &Family, name: &'static MetricName, e: &mut E) -> Result<(), E::Err>;
    fn typ(f: &Family, name: &'static MetricName, e: &mut E) -> Result<(), E::Err>;
    fn one(f: &Family, row: usize, name: &'static MetricName, e: &mut E) -> Result<(), E::Err>;
}
macro_rules! collect_direct {
    () => {
        fn typ(f: &Family, name: &'static MetricName, e: &mut E) -> Result<(), E::Err> {
            match f {
                Family::C(_) => CounterState::write_type(name, e),
                Family::G(_) => GaugeState::write_type(name, e),
                Family::F(_) => FloatGaugeState::write_type(name, e),
                _ => panic!("harness: no function for histograms"),
            }
        }
        fn one(f: &Family, row: usize, name: &'static MetricName, e: &mut E) -> Result<(), E::Err> {
            direct(f, row, name, e)
        }
    };
}
impl<M: MetricEncoding<E>, E: Encoding> MetricFamilyEncoding<E> for Fm<M> {
    fn collect_family_into(&self, name: impl measured::metric::name::MetricNameEncoder, enc: &mut E) -> Result<(), E::Err> {
        match self {
            Fm::One(m) => m.collect_family_into(name, enc),
            Fm::Vec(m) => m.collect_family_into(name, enc),
        }
    }
}
impl<E: Encoding> Collect<E> for Sel<false>
where
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
{
    fn collect(f: &Family, name: &'static MetricName, e: &mut E) -> Result<(), E::Err> {
        match f {
            Family::C(f) => f.collect_family_into(name, e),
            Family::G(f) => f.collect_family_into(name, e),
            Family::F(f) => f.collect_family_into(name, e),
            _ => panic!("harness: no histograms here"),
        }
    }
    collect_direct!();
}
impl<E: Encoding> Collect<E> for Sel<true>
where
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
    HistogramState<0>: MetricEncoding<E>,
    HistogramState<1>: MetricEncoding<E>,
    HistogramState<2>: MetricEncoding<E>,
    HistogramState<3>: MetricEncoding<E>,
    HistogramState<5>: MetricEncoding<E>,
    HistogramState<8>: MetricEncoding<E>,
    HistogramState<16>: MetricEncoding<E>,
    HistogramState<33>: MetricEncoding<E>,
    HistogramState<130>: MetricEncoding<E>,
    HistogramState<300>: MetricEncoding<E>,
{
    fn collect(f: &Family, name: &'static MetricName, e: &mut E) -> Result<(), E::Err> {
        match f {
            Family::C(f) => f.collect_family_into(name, e),
            Family::G(f) => f.collect_family_into(name, e),
            Family::F(f) => f.collect_family_into(name, e),
            Family::H0(f) => f.collect_family_into(name, e),
            Family::H1(f) => f.collect_family_into(name, e),
            Family::H2(f) => f.collect_family_into(name, e),
            Family::H3(f) => f.collect_family_into(name, e),
            Family::H5(f) => f.collect_family_into(name, e),
            Family::H8(f) => f.collect_family_into(name, e),
            Family::H16(f) => f.collect_family_into(name, e),
            Family::H33(f) => f.collect_family_into(name, e),
            Family::H130(f) => f.collect_family_into(name, e),
            Family::H300(f) => f.collect_family_into(name, e),
        }
    }
    collect_direct!();
}

/// a level of a group tree
pub enum Node<G: 'static> {
    Leaf(G),
    Ns(WithNamespace<G>),
    Opt(Option<G>),
    Arc(Arc<G>),
    Ref(&'static G),
    Comp(ComposedGroup<G, G>),
}
impl<E: Encoding, G> MetricGroup<E> for Node<G>
where
    G: MetricGroup<E>,
    WithNamespace<G>: MetricGroup<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        match self {
            Node::Leaf(g) => g.collect_group_into(enc),
            Node::Ns(g) => g.collect_group_into(enc),
            Node::Opt(g) => g.collect_group_into(enc),
            Node::Arc(g) => g.collect_group_into(enc),
            Node::Ref(g) => g.collect_group_into(enc),
            Node::Comp(g) => g.collect_group_into(enc),
        }
    }
}

/// prefix notation; L: a leaf of this level's child type (deeper levels wrap it in plain nodes)
pub trait Parse: Sized {
    fn parse(w: &mut std::slice::Iter<&str>, fams: &[Box<Fa>]) -> Self;
}
impl<const HIST: bool> Parse for Leaf<HIST> {
    fn parse(w: &mut std::slice::Iter<&str>, fams: &[Box<Fa>]) -> Self {
        let how = match *w.next().unwrap() {
            t @ ("F" | "W" | "V") => t.chars().next().unwrap(),
            _ => panic!("harness: tree too deep"),
        };
        let i: usize = w.next().unwrap().parse().unwrap();
        let name = MetricName::from_str(leak(text(w.next().unwrap())));
        let help = match *w.next().unwrap() {
            "none" => None,
            h => Some(leak(text(h))),
        };
        Leaf { name, help, fa: &*fams[i] as *const Fa, how }
    }
}
impl<G: Parse + 'static> Parse for Node<G> {
    fn parse(w: &mut std::slice::Iter<&str>, fams: &[Box<Fa>]) -> Self {
        let save = w.clone();
        match *w.next().unwrap() {
            "N" => {
                let ns = leak(text(w.next().unwrap()));
                Node::Ns(WithNamespace::new(ns, G::parse(w, fams)))
            }
            "O" => Node::Opt(Some(G::parse(w, fams))),
            "Z" => Node::Opt(None),
            "A" => Node::Arc(Arc::new(G::parse(w, fams))),
            "R" => Node::Ref(Box::leak(Box::new(G::parse(w, fams)))),
            "C" => {
                let a = G::parse(w, fams);
                Node::Comp(ComposedGroup(a, G::parse(w, fams)))
            }
            "F" | "W" | "V" => {
                *w = save;
                Node::Leaf(G::parse(w, fams))
            }
            t => panic!("harness: bad tree {t}"),
        }
    }
}
type Tree<const HIST: bool> = Node<Node<Node<Leaf<HIST>>>>;

// ------------------------------------------------------------------ writers

pub enum Enc {
    Text(TextEncoder<W>),
    Buf(BufferedTextEncoder, Vec<u8>),
    Proto(ProtoEncoder<W>),
}

// ------------------------------------------------------------------ the world of a case

#[derive(Default)]
pub struct World {
    fams: Vec<Box<Fa>>,
    rows: Vec<Row>,
    encs: std::collections::HashMap<String, Enc>,
}

fn res<T, E: std::fmt::Debug>(r: &Result<T, E>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}
fn take_log(w: &mut W) -> String {
    let l = std::mem::take(&mut w.log);
    if l.is_empty() {
        "-".into()
    } else {
        l
    }
}

impl World {
    pub fn command(&mut self, w: &[&str]) -> Option<String> {
        match w[0] {
            // row name:type:value...
            "row" => {
                let labels: Vec<(&'static LabelName, Val)> = w[1..]
                    .iter()
                    .map(|l| {
                        let p: Vec<&str> = l.split(':').collect();
                        let n = LabelName::from_str(leak(text(p[0])));
                        let v = match p[1] {
                            "s" => Val::S(text(p[2])),
                            "i" => Val::I(p[2].parse().unwrap()),
                            _ => Val::F(float(p[2])),
                        };
                        (n, v)
                    })
                    .collect();
                self.rows.push(Row { idx: self.rows.len(), labels: Box::leak(labels.into_boxed_slice()) });
            }
            // fam kind rep [N le...]: takes the rows given so far
            "fam" => {
                let rows = std::mem::take(&mut self.rows);
                let rep = w[2];
                let f = match w[1] {
                    "counter" => Family::C(mk(rep, rows, ())),
                    "gauge" => Family::G(mk(rep, rows, ())),
                    "fgauge" => Family::F(mk(rep, rows, ())),
                    _ => {
                        let le: Vec<f64> = w[4..].iter().map(|s| float(s)).collect();
                        let (n, ctor) = w[3].split_once('@').unwrap_or((w[3], "with"));
                        match n {
                            "0" => Family::H0(mk(rep, rows, thr(ctor, &le))),
                            "1" => Family::H1(mk(rep, rows, thr(ctor, &le))),
                            "2" => Family::H2(mk(rep, rows, thr(ctor, &le))),
                            "3" => Family::H3(mk(rep, rows, thr(ctor, &le))),
                            "5" => Family::H5(mk(rep, rows, thr(ctor, &le))),
                            "8" => Family::H8(mk(rep, rows, thr(ctor, &le))),
                            "16" => Family::H16(mk(rep, rows, thr(ctor, &le))),
                            "33" => Family::H33(mk(rep, rows, thr(ctor, &le))),
                            "130" => Family::H130(Box::new(mk(rep, rows, thr(ctor, &le)))),
                            "300" => Family::H300(Box::new(mk(rep, rows, thr(ctor, &le)))),
                            _ => panic!("harness: bad N"),
                        }
                    }
                };
                let touched = if rep == "one" { vec![0] } else { vec![] };
                self.fams.push(Box::new(Fa { fam: f, touched }));
            }
            // op fam row op arg
            "op" => {
                let f: usize = w[1].parse().unwrap();
                let row = w[2].parse().unwrap();
                let fa = &mut self.fams[f];
                fa.fam.op(row, w[3], w.get(4).copied().unwrap_or(""));
                if !fa.touched.contains(&row) {
                    fa.touched.push(row);
                }
            }
            // enc id kind chunk [n:act...] [f<n>]
            "enc" => {
                let mut wr = W { chunk: w.get(3).map_or(usize::MAX, |s| if *s == "-" { usize::MAX } else { s.parse().unwrap() }), ..W::default() };
                for p in w.iter().skip(4) {
                    if let Some(n) = p.strip_prefix('f') {
                        wr.fplan.insert(n.parse().unwrap(), String::new());
                    } else {
                        let (n, a) = p.split_once(':').unwrap();
                        wr.plan.insert(n.parse().unwrap(), a.into());
                    }
                }
                let e = match w[2] {
                    "text" => Enc::Text(TextEncoder::new(wr)),
                    "buf" => Enc::Buf(BufferedTextEncoder::new(), vec![]),
                    _ => Enc::Proto(ProtoEncoder::new(wr)),
                };
                self.encs.insert(w[1].into(), e);
            }
            // col enc tree
            "col" => {
                let mut it = w[2..].iter();
                let slice = it.as_slice().to_vec();
                it = slice.iter();
                let e = self.encs.get_mut(w[1]).unwrap();
                let fams = &self.fams;
                let r = catch_unwind(AssertUnwindSafe(|| match e {
                    Enc::Text(t) => res(&Tree::<true>::parse(&mut it, fams).collect_group_into(t)),
                    Enc::Buf(t, _) => res(&Tree::<true>::parse(&mut it, fams).collect_group_into(t)),
                    Enc::Proto(t) => res(&Tree::<false>::parse(&mut it, fams).collect_group_into(t)),
                }));
                return Some(self.report("col", w[1], r));
            }
            "fin" => {
                let e = self.encs.get_mut(w[1]).unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| match e {
                    Enc::Text(t) => res(&t.flush()),
                    Enc::Buf(t, b) => {
                        b.extend_from_slice(&t.finish());
                        "ok"
                    }
                    Enc::Proto(t) => res(&t.flush()),
                }));
                return Some(self.report("fin", w[1], r));
            }
            // out enc: the bytes that arrived since the last out
            "out" => {
                let b = match self.encs.get_mut(w[1]).unwrap() {
                    Enc::Text(t) => std::mem::take(&mut t.writer.bytes),
                    Enc::Buf(_, b) => std::mem::take(b),
                    Enc::Proto(t) => std::mem::take(&mut t.writer.bytes),
                };
                return Some(format!("out {} {}", w[1], hex(&b)));
            }
            c => panic!("harness: bad command {c}"),
        }
        None
    }

    fn report(&mut self, what: &str, id: &str, r: std::thread::Result<&'static str>) -> String {
        let wr = match self.encs.get_mut(id).unwrap() {
            Enc::Text(t) => Some(&mut t.writer),
            Enc::Buf(..) => None,
            Enc::Proto(t) => Some(&mut t.writer),
        };
        let (n, f, l) = wr.map_or((0, 0, "-".into()), |w| (w.writes, w.flushes, take_log(w)));
        let r = match r {
            Ok(r) => r.to_string(),
            Err(_) => format!("panic:{}", hex(LAST_PANIC.lock().unwrap().as_bytes())),
        };
        format!("{what} {id} {r} {n} {f} {l}")
    }
}
