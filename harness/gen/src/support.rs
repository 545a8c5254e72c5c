pub use crate::drive::*;
pub use indexmap::IndexSet;
pub use lasso::{MiniSpur, Rodeo, RodeoReader, ThreadedRodeo};
use measured::label::{FixedCardinalitySet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, LabelVisitor};
pub use measured::label::{ComposedGroup, StaticLabelSet};
pub use measured::metric::gauge::FloatGaugeState;
pub use measured::metric::group::MetricGroup as _;
pub use measured::metric::histogram::Thresholds;
pub use measured::metric::{Metric, MetricVec};
pub use measured::{Counter, CounterVec, FixedCardinalityLabel, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec, LabelGroup, MetricGroup};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use std::sync::Arc;

pub fn jb(b: &[u8]) -> String {
    jbytes(b)
}
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// a value with its kind
struct Typed;
impl LabelVisitor for Typed {
    type Output = String;
    fn write_int(self, x: i64) -> String {
        format!("{{\"t\":\"int\",\"v\":{}}}", jbytes(x.to_string().as_bytes()))
    }
    fn write_float(self, x: f64) -> String {
        format!("{{\"t\":\"float\",\"v\":{}}}", jbytes(x.to_string().as_bytes()))
    }
    fn write_str(self, x: &str) -> String {
        format!("{{\"t\":\"str\",\"v\":{}}}", jbytes(x.as_bytes()))
    }
}
pub struct TypedGroup(Vec<String>);
impl LabelGroupVisitor for TypedGroup {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        self.0.push(format!("[{},{}]", jbytes(name.as_str().as_bytes()), x.visit(Typed)));
    }
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

/// everything a derived enum says
pub fn drive_enum<T: FixedCardinalityLabel + measured::label::FixedCardinalityLabel + PartialEq>(id: &str, vs: &[T], single: Vec<String>) {
    crate::watchdog::beat();
    use measured::label::FixedCardinalityLabel as F;
    let decode = (0..vs.len()).map(|i| {
        let r = catch_unwind(AssertUnwindSafe(|| <T as F>::decode(i)));
        r.map_or("-1".into(), |t| vs.iter().position(|v| *v == t).unwrap().to_string())
    });
    let beyond = [vs.len(), vs.len() + 1, usize::MAX].iter().all(|i| catch_unwind(AssertUnwindSafe(|| <T as F>::decode(*i))).is_err());
    println!(
        "enum {{\"id\":\"{id}\",\"obs\":{{\"card\":{},\"encode\":{},\"decode\":{},\"shown\":{},\"beyond\":\"{}\",\"single\":{}}}}}",
        <T as F>::cardinality(),
        list(vs.iter().map(|v| F::encode(v).to_string()).collect()),
        list(decode.collect()),
        list(vs.iter().map(|v| v.visit(Typed)).collect()),
        if beyond { "panics" } else { "returns" },
        list(single),
    );
}
pub fn single<T: LabelGroup>(vs: &[T]) -> Vec<String> {
    vs.iter()
        .map(|v| {
            let mut t = TypedGroup(vec![]);
            v.visit_values(&mut t);
            list(t.0)
        })
        .collect()
}
pub fn show_set(id: &str, f: impl FnOnce() -> String) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => println!("{s}"),
        Err(e) => println!("panic {id} {}", hex(message(e).as_bytes())),
    }
}
fn message(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
pub fn show_doc(id: &str, f: impl FnOnce() -> Vec<(&'static str, Vec<u8>)>) {
    crate::watchdog::beat();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(ds) => {
            for (k, d) in ds {
                println!("doc {id} {k} {}", hex(&d));
            }
        }
        Err(e) => println!("panic {id} {}", hex(message(e).as_bytes())),
    }
}
pub fn text<G: measured::metric::group::MetricGroup<measured::text::BufferedTextEncoder>>(g: &G) -> Vec<u8> {
    let mut e = measured::text::BufferedTextEncoder::new();
    g.collect_group_into(&mut e).unwrap();
    e.finish().to_vec()
}
/// scrapes into a destination that fails
pub fn faults_text<G: measured::metric::group::MetricGroup<measured::text::TextEncoder<crate::faulty::W>>>(id: &str, g: &G, hs: &[&str], seed: usize) {
    crate::watchdog::beat();
    println!("{}", crate::faulty::histories(id, g, hs, seed).join("\n"));
}
pub fn faults_proto<G: measured::metric::group::MetricGroup<measured_prometheus_protobuf::ProtoEncoder<crate::faulty::W>>>(id: &str, g: &G, hs: &[&str], seed: usize) {
    crate::watchdog::beat();
    println!("{}", crate::faulty::histories(id, g, hs, seed).join("\n"));
}
#[derive(Clone, Default)]
pub struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn proto<G: measured::metric::group::MetricGroup<measured_prometheus_protobuf::ProtoEncoder<Shared>>>(g: &G) -> Vec<u8> {
    let w = Shared::default();
    let mut e = measured_prometheus_protobuf::ProtoEncoder::new(w.clone());
    g.collect_group_into(&mut e).unwrap();
    e.flush().unwrap();
    let b = w.0.borrow().clone();
    b
}

/// a fixed set of its own that has a default
pub struct Words(Vec<&'static str>);
impl Default for Words {
    fn default() -> Self {
        Words(vec!["w0", "w1", "w2"])
    }
}
impl LabelSet for Words {
    type Value<'a> = &'a str;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn encode(&self, v: &str) -> Option<usize> {
        self.0.iter().position(|w| *w == v)
    }
    fn decode(&self, i: usize) -> &str {
        self.0[i]
    }
}
impl FixedCardinalitySet for Words {
    fn cardinality(&self) -> usize {
        self.0.len()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
#[label(singleton = "k3")]
pub enum K3 {
    User,
    InternalThing,
    #[label(rename = "net\"")]
    Network,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
pub enum B2 {
    Off,
    On = 17,
}
pub fn reader(ws: &[&str]) -> RodeoReader {
    let mut r = Rodeo::new();
    for w in ws {
        r.get_or_intern(w);
    }
    r.into_reader()
}
pub fn index(ws: &[&str]) -> IndexSet<String> {
    ws.iter().map(|w| w.to_string()).collect()
}
pub fn words() -> phf::OrderedSet<&'static str> {
    phf::phf_ordered_set! { "w0", "w1", "w2" }
}
pub type Phf = phf::OrderedSet<&'static str>;

/// the label group of the vectors of metric groups
#[derive(Clone, LabelGroup)]
#[label(set = PathSet)]
pub struct Path<'a> {
    #[label(fixed_with = RodeoReader)]
    pub path: &'a str,
    pub kind: K3,
}
pub fn preset(n: u64) -> Counter {
    let c = Counter::new();
    c.inc_by(n);
    c
}
