//! Every group of a label set through all its functions and through families of every representation.
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelTestVisitor, LabelValue};
use measured::metric::name::MetricName;
use measured::metric::MetricFamilyEncoding;
use measured::text::BufferedTextEncoder;
use measured::CounterVec;
use std::sync::Arc;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Collect(pub Vec<(String, String)>);
impl LabelGroupVisitor for Collect {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        self.0.push((name.as_str().to_string(), x.visit(LabelTestVisitor)));
    }
}
pub fn labels(g: &impl LabelGroup) -> Vec<(String, String)> {
    let mut c = Collect(vec![]);
    g.visit_values(&mut c);
    c.0
}

pub fn jbytes(b: &[u8]) -> String {
    format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
pub fn jlabels(l: &[(String, String)]) -> String {
    let v: Vec<String> = l.iter().map(|(n, v)| format!("[{},{}]", jbytes(n.as_bytes()), jbytes(v.as_bytes()))).collect();
    format!("[{}]", v.join(","))
}

/// what is known of a group before the code is asked
pub struct Want {
    pub labels: Vec<(String, String)>,
    /// yes, no, maybe
    pub inside: &'static str,
}
pub fn want(inside: bool, l: &[(&str, String)]) -> Want {
    Want { labels: l.iter().map(|(n, v)| (n.to_string(), v.clone())).collect(), inside: if inside { "yes" } else { "no" } }
}

pub type Gs<G> = Vec<(Want, Box<dyn Fn() -> G>)>;
pub fn put<G: Clone + 'static>(gs: &mut Gs<G>, inside: bool, l: &[(&str, String)], g: G) {
    gs.push((want(inside, l), Box::new(move || g.clone())));
}

/// what the cardinality has to be: -1 none, -2 anything, -3 the number of groups inside
fn bound(id: &str, full: bool) -> i64 {
    match id.rsplit(':').next().unwrap() {
        "dyn" | "mix" | "tiny" | "composed-dyn" | "vast" => -1,
        n if n.starts_with('n') && n[1..].parse::<i64>().is_ok() => n[1..].parse().unwrap(),
        _ if full => -3,
        _ => -2,
    }
}

/// The set itself, or behind references and shared pointers: "ref:", "arc:", "refarc:" and so on before its name.
/// full: the groups with inside = yes are all there are
pub fn drive<S: LabelGroupSet + 'static>(
    id: &str,
    full: bool,
    mkset: &dyn Fn() -> S,
    groups: &[(Want, Box<dyn Fn() -> S::Group<'static> + '_>)],
) -> String {
    match id.split_once(':').map(|x| x.0) {
        None => drive0::<S>(id, full, mkset, groups),
        Some("ref") => drive0::<&'static S>(id, full, &|| Box::leak(Box::new(mkset())), groups),
        Some("arc") => drive0::<Arc<S>>(id, full, &|| Arc::new(mkset()), groups),
        Some("refarc") => drive0::<&'static Arc<S>>(id, full, &|| Box::leak(Box::new(Arc::new(mkset()))), groups),
        Some(w) => panic!("harness: {w}"),
    }
}

fn drive0<S: LabelGroupSet + 'static>(
    id: &str,
    full: bool,
    mkset: &dyn Fn() -> S,
    groups: &[(Want, Box<dyn Fn() -> S::Group<'static> + '_>)],
) -> String {
    let mut out = vec![];
    crate::watchdog::beat();
    let set = mkset();
    let card = set.cardinality();
    let mut uniques: Vec<S::Unique> = vec![];
    for (w, mk) in groups {
        let g = mk();
        let (shown, byref) = (labels(&g), labels(&g.by_ref()));
        let u = set.encode(g);
        let (mut idn, mut dense, mut dec, mut dend) = (-1i64, -1i64, vec![], vec![]);
        if let Some(u) = u {
            idn = match uniques.iter().position(|v| *v == u) {
                Some(i) => i as i64,
                None => {
                    uniques.push(u);
                    uniques.len() as i64 - 1
                }
            };
            dec = labels(&set.decode(&u));
            if let Some(d) = set.encode_dense(u) {
                // too large to be of interest
                dense = if d < 1 << 30 { d as i64 } else { 1 << 30 };
                if card.is_some() {
                    dend = labels(&set.decode_dense(d));
                }
            }
        }
        out.push(format!(
            "{{\"labels\":{},\"shown\":{},\"byref\":{},\"inside\":\"{}\",\"id\":{},\"dense\":{},\"dec\":{},\"dend\":{}}}",
            jlabels(&w.labels),
            jlabels(&shown),
            jlabels(&byref),
            w.inside,
            idn,
            dense,
            jlabels(&dec),
            jlabels(&dend)
        ));
    }
    let mut docs = vec![];
    for rep in ["auto", "dense", "sparse"] {
        if rep == "dense" && !card.is_some_and(|c| c < 100_000) {
            continue;
        }
        let mut v: CounterVec<S> = match rep {
            "auto" => CounterVec::with_label_set(mkset()),
            "dense" => CounterVec::dense_with_label_set(mkset()),
            _ => CounterVec::sparse_with_label_set(mkset()),
        };
        // every group twice, in two orders, by different access paths
        let mut acc = vec![];
        let (mut ids, mut lids) = (vec![], vec![]);
        let mut amounts = vec![0u64; groups.len()];
        for (i, (_, mk)) in groups.iter().enumerate() {
            let ok = match v.try_with_labels(mk()) {
                Some(id) => {
                    lids.push(match ids.iter().position(|v| *v == id) {
                        Some(i) => i as i64,
                        None => {
                            ids.push(id);
                            ids.len() as i64 - 1
                        }
                    });
                    v.get_metric(id).inc_by(i as u64 + 1);
                    amounts[i] += i as u64 + 1;
                    true
                }
                None => {
                    lids.push(-1);
                    // the panicking methods reject it, too
                    let r = catch_unwind(AssertUnwindSafe(|| v.inc(mk())));
                    r.is_ok()
                }
            };
            acc.push(ok.to_string());
        }
        for (i, (_, mk)) in groups.iter().enumerate().rev() {
            if acc[i] == "true" {
                if i % 2 == 0 {
                    v.inc_by(mk(), 1000);
                } else {
                    let id = v.with_labels(mk());
                    v.get_metric_mut(id).inc_by(1000);
                }
                amounts[i] += 1000;
            }
        }
        let doc = |v: &CounterVec<S>| {
            let mut e = BufferedTextEncoder::new();
            v.collect_family_into(MetricName::from_str("m"), &mut e).unwrap();
            e.finish().to_vec()
        };
        let (n, c) = v.get_cardinality();
        let before = doc(&v);
        // remove one of three
        let mut removed = vec!["false".to_string(); groups.len()];
        if rep == "sparse" {
            for (i, (_, mk)) in groups.iter().enumerate() {
                if i % 3 == 1 && acc[i] == "true" {
                    let id = v.with_labels(mk());
                    removed[i] = v.remove_metric(id).is_some().to_string();
                }
            }
        }
        docs.push(format!(
            "{{\"rep\":\"{rep}\",\"accepted\":[{}],\"lids\":{:?},\"amounts\":[{}],\"series\":{n},\"bound\":{},\"doc\":{},\"removed\":[{}],\"after\":{}}}",
            acc.join(","),
            lids,
            amounts.iter().map(|a| jbytes(a.to_string().as_bytes())).collect::<Vec<_>>().join(","),
            c.map_or(-1, |c| c.min(1 << 30) as i64),
            jbytes(&before),
            removed.join(","),
            jbytes(&doc(&v)),
        ));
    }
    // every series at once, after some were used
    let mut all = vec![];
    if card.is_some_and(|c| c < 100_000) {
        let mut v: CounterVec<S> = CounterVec::dense_with_label_set(mkset());
        let mut amounts = vec![0u64; groups.len()];
        let mut go = |v: &CounterVec<S>, k: usize| {
            for (i, (_, mk)) in groups.iter().enumerate() {
                if let Some(id) = v.try_with_labels(mk()).filter(|_| i % 3 == k) {
                    v.get_metric(id).inc_by(i as u64 + 1);
                    amounts[i] += i as u64 + 1;
                }
            }
        };
        go(&v, 0);
        v.init_all_dense();
        go(&v, 1);
        v.init_all_dense();
        let (n, _) = v.get_cardinality();
        let mut e = BufferedTextEncoder::new();
        v.collect_family_into(MetricName::from_str("m"), &mut e).unwrap();
        let doc = e.finish();
        // long documents: the lines of series that were not used are counted here
        let mut zeros = 0;
        let mut kept = vec![];
        for l in doc.split_inclusive(|b| *b == b'\n') {
            if doc.len() > 4000 && l.ends_with(b" 0\n") {
                zeros += 1;
            } else {
                kept.extend_from_slice(l);
            }
        }
        all.push(format!(
            "{{\"amounts\":[{}],\"series\":{n},\"zeros\":{zeros},\"doc\":{}}}",
            amounts.iter().map(|a| jbytes(a.to_string().as_bytes())).collect::<Vec<_>>().join(","),
            jbytes(&kept)
        ));
    }
    format!(
        "set {{\"id\":\"{id}\",\"full\":{full},\"card\":{},\"bound\":{},\"groups\":[{}],\"docs\":[{}],\"all\":[{}]}}",
        card.map_or(-1, |c| c.min(1 << 30) as i64),
        bound(id, full),
        out.join(","),
        docs.join(","),
        all.join(",")
    )
}

/// Every value of a set of values. counted: what FixedCardinalitySet::cardinality says, -2 if it is not one
pub fn values<S: LabelSet>(
    id: &str,
    full: bool,
    set: S,
    counted: impl Fn(&S) -> i64,
    vals: &[(bool, String, Box<dyn Fn() -> S::Value<'static> + '_>)],
) -> String {
    values_of(id, if full { -2 } else { -1 }, set, counted, vals)
}
/// of: how many values there are when vals is a sample of them; -1: no limit, -2: all are there
pub fn values_of<S: LabelSet>(
    id: &str,
    of: i64,
    set: S,
    counted: impl Fn(&S) -> i64,
    vals: &[(bool, String, Box<dyn Fn() -> S::Value<'static> + '_>)],
) -> String {
    let mut out = vec![];
    for round in 0..2 {
        for (inside, label, mk) in vals {
            let shown = mk().visit(LabelTestVisitor);
            let enc = set.encode(mk());
            let dec = enc.map_or(String::new(), |e| set.decode(e).visit(LabelTestVisitor));
            out.push(format!(
                "{{\"round\":{round},\"inside\":{inside},\"label\":{},\"shown\":{},\"enc\":{},\"dec\":{}}}",
                jbytes(label.as_bytes()),
                jbytes(shown.as_bytes()),
                enc.map_or(-1, |e| e.min(1 << 30) as i64),
                jbytes(dec.as_bytes())
            ));
        }
    }
    format!(
        "set {{\"id\":\"{id}\",\"values\":[{}],\"of\":{of},\"card\":{},\"counted\":{}}}",
        out.join(","),
        set.dynamic_cardinality().map_or(-1, |c| c.min(1 << 30) as i64),
        counted(&set)
    )
}
