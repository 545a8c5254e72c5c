use crate::*;
use measured::label::LabelName;
use measured::metric::name::{Bucket, Count, MetricName, MetricNameEncoder, Sum, Suffix, Total, WithNamespace, WithSuffix};

/// name CTOR HEX: does the constructor take the string, and what does the name then say
pub fn name(w: &[&str]) -> String {
    let s = leak(text(w[1]));
    let r = catch_unwind(AssertUnwindSafe(|| match w[0] {
        "metric" => Some(show(MetricName::from_str(s))),
        "try" => MetricName::try_from_str(s).ok().map(show),
        "in_ns" => {
            let n = MetricName::from_str("n").in_namespace(s);
            Some(show(n))
        }
        "ns" => Some(show(WithNamespace::new(s, MetricName::from_str("n")))),
        "label" => {
            let n = LabelName::from_str(s);
            Some((n.as_str().as_bytes().to_vec(), n.as_str().len()))
        }
        c => panic!("harness: bad constructor {c}"),
    }));
    match r {
        Ok(Some((b, n))) => format!("name {} {} ok {} {}", w[0], w[1], hex(&b), n),
        _ => format!("name {} {} rejected", w[0], w[1]),
    }
}

fn show(n: impl MetricNameEncoder) -> (Vec<u8>, usize) {
    let mut b = vec![];
    n.encode_utf8(&mut b).unwrap();
    (b, n.encode_len())
}

pub struct Custom(&'static str);
impl Suffix for Custom {
    fn encode_text(&self, b: &mut impl Write) -> std::io::Result<()> {
        b.write_all(b"_")?;
        b.write_all(self.0.as_bytes())
    }
    fn encode_len(&self) -> usize {
        self.0.len() + 1
    }
}

pub enum Level<T> {
    Plain(T),
    Ns(WithNamespace<T>),
    Total(WithSuffix<Total, T>),
    Count(WithSuffix<Count, T>),
    Sum(WithSuffix<Sum, T>),
    Bucket(WithSuffix<Bucket, T>),
    Custom(WithSuffix<Custom, T>),
    NsTotal(WithSuffix<Total, WithNamespace<T>>),
}
impl<T: MetricNameEncoder> MetricNameEncoder for Level<T> {
    fn encode_utf8(&self, b: &mut impl Write) -> std::io::Result<()> {
        match self {
            Level::Plain(x) => x.encode_utf8(b),
            Level::Ns(x) => x.encode_utf8(b),
            Level::Total(x) => x.encode_utf8(b),
            Level::Count(x) => x.encode_utf8(b),
            Level::Sum(x) => x.encode_utf8(b),
            Level::Bucket(x) => x.encode_utf8(b),
            Level::Custom(x) => x.encode_utf8(b),
            Level::NsTotal(x) => x.encode_utf8(b),
        }
    }
    fn encode_len(&self) -> usize {
        match self {
            Level::Plain(x) => x.encode_len(),
            Level::Ns(x) => x.encode_len(),
            Level::Total(x) => x.encode_len(),
            Level::Count(x) => x.encode_len(),
            Level::Sum(x) => x.encode_len(),
            Level::Bucket(x) => x.encode_len(),
            Level::Custom(x) => x.encode_len(),
            Level::NsTotal(x) => x.encode_len(),
        }
    }
}

fn level<T: MetricNameEncoder>(x: T, op: &str) -> Level<T> {
    let (o, a) = op.split_once(':').unwrap_or((op, ""));
    match o {
        "plain" => Level::Plain(x),
        "ns" => Level::Ns(WithNamespace::new(leak(text(a)), x)),
        "nstotal" => Level::NsTotal(WithNamespace::new(leak(text(a)), x).with_suffix(Total)),
        "total" => Level::Total(x.with_suffix(Total)),
        "count" => Level::Count(x.with_suffix(Count)),
        "sum" => Level::Sum(x.with_suffix(Sum)),
        "bucket" => Level::Bucket(x.with_suffix(Bucket)),
        "custom" => Level::Custom(x.with_suffix(Custom(leak(text(a))))),
        _ => panic!("harness: bad level {op}"),
    }
}

/// comp BASE op op op: the composed name and the length it declares; also through a reference and a static name
pub fn comp(w: &[&str]) -> String {
    let base = leak(text(w[0]));
    let b = MetricName::from_str(base);
    let n = level(level(level(b, w[1]), w[2]), w[3]);
    let (bytes, len) = show(&n);
    let (bytes2, len2) = show(n.by_ref());
    // the inherent methods of a name that is known at compile time
    let direct = match (w[1].split_once(':').unwrap_or((w[1], "")), w[2], w[3]) {
        (("ns", a), "plain", "plain") => Some(show(b.in_namespace(leak(text(a))))),
        (("ns", a), "total", "plain") => Some(show(b.in_namespace(leak(text(a))).with_suffix(Total))),
        (("total", _), "plain", "plain") => Some(show(b.with_suffix(Total))),
        (("count", _), "plain", "plain") => Some(show(b.with_suffix(Count))),
        _ => None,
    };
    let (b3, l3) = direct.unwrap_or((bytes.clone(), len));
    format!("comp {} {} {} {} {} {}", hex(&bytes), len, hex(&bytes2), len2, hex(&b3), l3)
}
