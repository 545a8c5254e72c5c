//! A destination that fails as planned, and histories of an encoder that writes to it.
use measured::metric::group::{Encoding, MetricGroup};
use measured::text::TextEncoder;
use measured_prometheus_protobuf::ProtoEncoder;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what the n-th write and the n-th flush do; afterwards everything is accepted (up to `chunk` bytes at a time)
#[derive(Default)]
pub struct W {
    pub plan: std::collections::HashMap<usize, String>,
    pub fplan: std::collections::HashMap<usize, String>,
    pub chunk: usize,
    pub writes: usize,
    pub flushes: usize,
    pub log: String,
    pub bytes: Vec<u8>,
}
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.writes;
        self.writes += 1;
        if n > 2_000_000 {
            panic!("the writer is called without end");
        }
        if let Some(p) = self.plan.get(&n) {
            match p.as_str() {
                "e" => {
                    self.log.push('e');
                    return Err(io::Error::new(io::ErrorKind::Other, "injected"));
                }
                // an error kind that some code treats as transient
                "b" => {
                    self.log.push('e');
                    return Err(io::Error::new(io::ErrorKind::WouldBlock, "injected"));
                }
                "i" => {
                    self.log.push('i');
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
                }
                "z" => {
                    // accepting nothing of a non-empty buffer is a failure
                    self.log.push(if b.is_empty() { 'w' } else { 'z' });
                    return Ok(0);
                }
                p => {
                    let k: usize = p.parse().unwrap();
                    let k = k.min(b.len());
                    self.bytes.extend_from_slice(&b[..k]);
                    self.log.push('w');
                    return Ok(k);
                }
            }
        }
        let k = b.len().min(self.chunk.max(1));
        self.bytes.extend_from_slice(&b[..k]);
        self.log.push('w');
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        let n = self.flushes;
        self.flushes += 1;
        if self.fplan.contains_key(&n) {
            self.log.push('f');
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        self.log.push('F');
        Ok(())
    }
}

/// an encoder that writes to W
pub trait Encoder: Encoding {
    const KIND: &'static str;
    fn on(w: W) -> Self;
    fn w(&mut self) -> &mut W;
    fn finish(&mut self) -> bool;
}
impl Encoder for TextEncoder<W> {
    const KIND: &'static str = "text";
    fn on(w: W) -> Self {
        TextEncoder::new(w)
    }
    fn w(&mut self) -> &mut W {
        &mut self.writer
    }
    fn finish(&mut self) -> bool {
        self.flush().is_ok()
    }
}
impl Encoder for ProtoEncoder<W> {
    const KIND: &'static str = "proto";
    fn on(w: W) -> Self {
        ProtoEncoder::new(w)
    }
    fn w(&mut self) -> &mut W {
        &mut self.writer
    }
    fn finish(&mut self) -> bool {
        self.flush().is_ok()
    }
}

/// one history of collects (c) and finishes (f); "n:act,n:act,fn": what the destination does. One word for each call:
/// call, outcome, whether the destination failed, bytes that arrived; then the numbers of writes and flushes
fn history<E: Encoder, G: MetricGroup<E>>(g: &G, h: &str, plan: &str) -> (String, usize, usize) {
    let mut w = W { chunk: usize::MAX, ..W::default() };
    for p in plan.split(',').filter(|p| *p != "-") {
        match p.strip_prefix('f') {
            Some(n) => drop(w.fplan.insert(n.parse().unwrap(), String::new())),
            None => {
                let (n, a) = p.split_once(':').unwrap();
                w.plan.insert(n.parse().unwrap(), a.into());
            }
        }
    }
    let mut e = E::on(w);
    let mut out = vec![];
    for c in h.chars() {
        let r = catch_unwind(AssertUnwindSafe(|| if c == 'c' { g.collect_group_into(&mut e).is_ok() } else { e.finish() }));
        let w = e.w();
        let failed = w.log.contains(['e', 'z', 'f']);
        w.log.clear();
        let got: String = std::mem::take(&mut w.bytes).iter().map(|b| format!("{b:02x}")).collect();
        out.push(format!("{c}:{}:{}:{got}", r.map_or("panic", |r| if r { "ok" } else { "err" }), failed as u8));
    }
    (out.join(" "), e.w().writes, e.w().flushes)
}

/// histories without a fault, and with one at every call of the destination
pub fn histories<E: Encoder, G: MetricGroup<E>>(id: &str, g: &G, hs: &[&str], seed: usize) -> Vec<String> {
    let mut out = vec![];
    for h in hs {
        let mut show = |plan: &str, calls: String| out.push(format!("fault {id} {} {h} {plan} {calls}", E::KIND));
        let (calls, writes, flushes) = history::<E, G>(g, h, "-");
        show("-", calls);
        let mut plans = vec![];
        for k in 0..writes {
            // every point of the short histories, every third of the others
            if h.len() <= 2 || (k + seed) % 3 == 0 {
                plans.push(format!("{k}:e"));
                plans.push(format!("{k}:{}", ["z", "i", "b", "1"][(k + seed) % 4]));
            }
            if (k + seed) % 7 == 0 {
                plans.push(format!("{k}:e,{}:{}", k + 1 + (k * 5 + seed) % 11, ["e", "z"][k % 2]));
            }
        }
        plans.extend((0..flushes).map(|k| format!("f{k}")));
        for p in plans {
            let calls = history::<E, G>(g, h, &p).0;
            show(&p, calls);
        }
    }
    out
}
