//! Label sets of every kind.
use crate::drive::*;
use indexmap::IndexSet;
use lasso::{MicroSpur, MiniSpur, Rodeo, RodeoReader, Spur, ThreadedRodeo};
use measured::label::{
    ComposedGroup, FixedCardinalitySet, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, StaticLabelSet,
};
use measured::{FixedCardinalityLabel, LabelGroup};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

// ------------------------------------------------------------------ values

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
#[label(singleton = "kind")]
enum Kind {
    User,
    Internal,
    Network,
}
const KINDS: [(Kind, &str); 3] = [(Kind::User, "user"), (Kind::Internal, "internal"), (Kind::Network, "network")];
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
#[label(singleton = "b")]
enum Bit {
    #[label(rename = "off\"\\")]
    Off,
    On = 1,
}
const BITS: [(Bit, &str); 2] = [(Bit::Off, "off\"\\"), (Bit::On, "1")];
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
enum Solo {
    Only,
}

/// 0..N by hand
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Num<const N: usize>(usize);
impl<const N: usize> LabelValue for Num<N> {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64 - 3)
    }
}
impl<const N: usize> FixedCardinalityLabel for Num<N> {
    fn cardinality() -> usize {
        N
    }
    fn encode(&self) -> usize {
        self.0
    }
    fn decode(value: usize) -> Self {
        assert!(value < N);
        Num(value)
    }
}
impl<const N: usize> measured::LabelGroup for Num<N> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        const N: &LabelName = LabelName::from_str("num");
        v.write_value(N, self);
    }
}
fn num(i: usize) -> String {
    (i as i64 - 3).to_string()
}

/// an own value type for an index set
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Code(u16);
impl LabelValue for Code {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_float(f64::from(self.0) / 2.0)
    }
}

/// everything collides
#[derive(Clone, Copy, Default, Debug)]
struct Flat;
impl BuildHasher for Flat {
    type Hasher = Flat;
    fn build_hasher(&self) -> Flat {
        Flat
    }
}
impl Hasher for Flat {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}

// ------------------------------------------------------------------ groups

#[derive(Clone, Copy, LabelGroup)]
#[label(set = OneSet)]
struct One {
    kind: Kind,
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = TwoSet)]
struct Two {
    kind: Kind,
    #[label(rename = "num5")]
    n: Num<5>,
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = FourSet)]
struct Four {
    n: Num<5>,
    s: Solo,
    kind: Kind,
    bit: Bit,
}
#[derive(Clone, LabelGroup)]
#[label(set = FixedSet)]
struct Fixed<'a> {
    kind: Kind,
    #[label(fixed_with = RodeoReader)]
    route: &'a str,
    #[label(fixed_with = IndexSet<&'static str>)]
    code: &'static str,
    #[label(fixed_with = phf::OrderedSet<&'static str>)]
    word: &'a str,
}
#[derive(Clone, LabelGroup)]
#[label(set = IndexedSet)]
struct Indexed {
    #[label(fixed_with = IndexSet<Code, Flat>)]
    code: Code,
    #[label(fixed_with = Arc<IndexSet<String>>)]
    name: String,
}
#[derive(Clone, LabelGroup)]
#[label(set = DynSet)]
struct Dyn<'a> {
    #[label(dynamic_with = ThreadedRodeo, default)]
    path: &'a str,
}
#[derive(Clone, LabelGroup)]
#[label(set = MixSet)]
struct Mix<'a> {
    kind: Kind,
    #[label(dynamic_with = ThreadedRodeo, default)]
    path: &'a str,
    bit: Bit,
    #[label(dynamic_with = Arc<ThreadedRodeo<MiniSpur>>)]
    user: &'a str,
    #[label(fixed_with = RodeoReader)]
    route: &'a str,
}
#[derive(Clone, LabelGroup)]
#[label(set = TinySet)]
struct Tiny<'a> {
    bit: Bit,
    #[label(dynamic_with = ThreadedRodeo<MicroSpur>)]
    path: &'a str,
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = HugeSet)]
struct Huge {
    a: Num<65536>,
    b: Num<65536>,
    c: Num<65536>,
    d: Num<65536>,
    kind: Kind,
}
#[derive(Clone, Copy, LabelGroup)]
#[label(set = BrimSet)]
struct Brim {
    a: Num<65536>,
    b: Num<65536>,
    c: Num<65536>,
    d: Num<65536>,
}
#[derive(Clone, LabelGroup)]
#[label(set = VastSet)]
struct Vast<'a> {
    a: Num<4294967296>,
    #[label(dynamic_with = ThreadedRodeo, default)]
    path: &'a str,
    b: Num<4294967296>,
    c: Num<2>,
}

/// a set whose identities all hash alike
struct Alike;
#[derive(Clone, Copy, PartialEq, Eq)]
struct Id(usize);
impl Hash for Id {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(1);
    }
}
impl LabelGroupSet for Alike {
    type Group<'a> = Num<40>;
    type Unique = Id;
    fn cardinality(&self) -> Option<usize> {
        Some(40)
    }
    fn encode_dense(&self, v: Id) -> Option<usize> {
        Some(v.0)
    }
    fn decode_dense(&self, v: usize) -> Num<40> {
        Num(v)
    }
    fn encode(&self, v: Num<40>) -> Option<Id> {
        (v.0 < 40).then_some(Id(v.0))
    }
    fn decode(&self, v: &Id) -> Num<40> {
        Num(v.0)
    }
}

// ------------------------------------------------------------------ sets

const ROUTES: [&str; 4] = ["/user/:id", "", "a\"b", "é\n"];
const CODES: [&str; 3] = ["200", "404", "500"];
const WORDS: [&str; 5] = ["loop", "continue", "break", "fn", "extern"];
static PHF: phf::OrderedSet<&'static str> = phf::phf_ordered_set! { "loop", "continue", "break", "fn", "extern" };
fn phf_set() -> phf::OrderedSet<&'static str> {
    phf::phf_ordered_set! { "loop", "continue", "break", "fn", "extern" }
}

fn routes() -> RodeoReader {
    let mut r = Rodeo::new();
    for s in ROUTES {
        r.get_or_intern(s);
    }
    r.into_reader()
}

const LONG: usize = 70000;
const FAR: [usize; 14] = [0, 1, 127, 128, 255, 256, 1023, 4095, 32767, 32768, 65535, 65536, 65537, LONG - 1];
fn far(i: usize) -> String {
    format!("w{i}")
}
fn fars(off: &[&'static str]) -> (Vec<&'static str>, Vec<&'static str>) {
    (FAR.into_iter().map(|i| &*far(i).leak()).collect(), off.to_vec())
}

const VALUES: &[&str] = &[
    "v-static", "v-zero", "v-index", "v-index-flat", "v-arc-index", "v-reader", "v-arc-reader", "v-phf", "v-arc-phf", "v-arc-arc",
    "v-rodeo", "v-arc-rodeo", "v-micro", "v-empty", "v-long-reader", "v-long-index", "v-long-static", "v-long-rodeo",
];

/// every set as it is, and behind the wrappers
pub fn all() -> Vec<String> {
    let mut v: Vec<String> = ALL.iter().map(|s| s.to_string()).collect();
    for w in ["ref", "arc", "refarc"] {
        for s in ["single", "bit", "one", "two", "fixed", "indexed", "empty", "dyn", "mix", "composed", "nested", "composed-dyn", "alike", "zero", "huge", "vast"] {
            if w != "refarc" || s.contains("dyn") || s == "one" || s == "composed" {
                v.push(format!("{w}:{s}"));
            }
        }
    }
    v.extend(VALUES.iter().map(|s| s.to_string()));
    v
}

fn strings<'a>(inside: &[&'static str], outside: &[&'static str]) -> Vec<(bool, String, Box<dyn Fn() -> &'static str + 'a>)> {
    let mut v: Vec<(bool, String, Box<dyn Fn() -> &'static str>)> = vec![];
    for (b, l) in [(false, outside), (true, inside)] {
        for s in l.iter().rev() {
            let s: &'static str = s;
            v.push((b, s.to_string(), Box::new(move || s)));
        }
    }
    v
}
fn value_set(id: &str) -> String {
    fn counted<S: FixedCardinalitySet>(s: &S) -> i64 {
        s.cardinality().min(1 << 30) as i64
    }
    let none = -2;
    let off = ["/other", "/user/:i", "20", "x", "loo"];
    match id {
        "v-static" => {
            let v: Vec<_> = KINDS
                .into_iter()
                .map(|(k, n)| (true, n.to_string(), Box::new(move || k) as Box<dyn Fn() -> Kind>))
                .collect();
            values(id, true, StaticLabelSet::<Kind>::new(), counted, &v)
        }
        "v-zero" => values(id, true, StaticLabelSet::<Num<0>>::new(), counted, &[]),
        "v-index" => values(id, true, CODES.into_iter().collect::<IndexSet<&'static str>>(), counted, &strings(&CODES, &off)),
        "v-index-flat" => {
            let v: Vec<_> = [1u16, 2, 3, 65535, 0]
                .into_iter()
                .zip(["0.5", "1.0", "1.5", "32767.5", "0.0"])
                .map(|(c, n)| (c != 0, n.to_string(), Box::new(move || Code(c)) as Box<dyn Fn() -> Code>))
                .collect();
            values(id, true, [65535, 3, 1, 2].into_iter().map(Code).collect::<IndexSet<Code, Flat>>(), counted, &v)
        }
        "v-arc-index" => values(id, true, Arc::new(CODES.into_iter().collect::<IndexSet<&'static str>>()), counted, &strings(&CODES, &off)),
        "v-empty" => values(id, true, IndexSet::<&'static str>::new(), counted, &strings(&[], &off)),
        "v-reader" => values(id, true, routes(), counted, &strings(&ROUTES, &off)),
        "v-arc-reader" => values(id, true, Arc::new(routes()), counted, &strings(&ROUTES, &off)),
        "v-phf" => values(id, true, phf_set(), counted, &strings(&WORDS, &off)),
        "v-arc-phf" => values(id, true, Arc::new(phf_set()), counted, &strings(&WORDS, &off)),
        "v-arc-arc" => values(id, true, Arc::new(Arc::new(routes())), counted, &strings(&ROUTES, &off)),
        "v-rodeo" => values(id, false, ThreadedRodeo::<Spur>::new(), |_| none, &strings(&WORDS, &[])),
        "v-arc-rodeo" => values(id, false, Arc::new(ThreadedRodeo::<MiniSpur>::new()), |_| none, &strings(&ROUTES, &[])),
        // more values than 16 bits can number
        "v-long-reader" => {
            let mut r = Rodeo::<Spur>::new();
            for i in 0..LONG {
                r.get_or_intern(far(i));
            }
            let v = fars(&["w", "w70000", "70000"]);
            values_of(id, LONG as i64, r.into_reader(), counted, &strings(&v.0, &v.1))
        }
        "v-long-index" => {
            let v = fars(&["w", "w70000", "70000"]);
            let all: Vec<&'static str> = (0..LONG).map(|i| &*far(i).leak()).collect();
            values_of(id, LONG as i64, all.into_iter().collect::<IndexSet<&'static str>>(), counted, &strings(&v.0, &v.1))
        }
        "v-long-static" => {
            let v: Vec<_> =
                FAR.into_iter().map(|i| (true, num(i), Box::new(move || Num::<LONG>(i)) as Box<dyn Fn() -> Num<LONG>>)).collect();
            values_of(id, LONG as i64, StaticLabelSet::<Num<LONG>>::new(), counted, &v)
        }
        "v-long-rodeo" => {
            let r = ThreadedRodeo::<Spur>::new();
            for i in 0..LONG {
                r.get_or_intern(far(i));
            }
            let v = fars(&[]);
            values(id, false, r, |_| none, &strings(&v.0, &[]))
        }
        "v-micro" => values(id, false, ThreadedRodeo::<MicroSpur>::new(), |_| none, &strings(&CODES, &[])),
        _ => panic!("harness: no such set {id}"),
    }
}

pub const ALL: &[&str] = &[
    "single", "bit", "one", "two", "four", "fixed", "indexed", "empty", "dyn", "mix", "tiny", "composed", "composed-dyn", "nested",
    "alike", "n3", "n5", "n16", "n17", "n31", "n33", "n64", "n65", "n100", "n127", "n129", "n255", "n256", "n257", "n300",
    "n511", "n513", "n777", "n1000", "n1023", "n1024", "n1025", "n2048", "n4097", "n65535", "n65537", "n99999", "zero", "huge", "brim", "vast", "composed-huge", "phf",
];

pub fn set(w: &[&str]) -> String {
    let id = w[0];
    if id.starts_with("v-") {
        return value_set(id);
    }
    match id.rsplit(':').next().unwrap() {
        "single" => {
            let mut g = vec![];
            for (k, n) in KINDS {
                put(&mut g, true, &[("kind", n.into())], k);
            }
            drive::<StaticLabelSet<Kind>>(id, true, &StaticLabelSet::new, &g)
        }
        "bit" => {
            let mut g = vec![];
            for (k, n) in BITS.into_iter().rev() {
                put(&mut g, true, &[("b", n.into())], k);
            }
            drive::<StaticLabelSet<Bit>>(id, true, &StaticLabelSet::new, &g)
        }
        _ if id.starts_with('n') && id[1..].parse::<usize>().is_ok() => {
            // sizes around powers of two; the default representation changes after 1024
            fn run<const N: usize>(id: &str) -> String {
                let mut g = vec![];
                let mut at = vec![0, 1, 2, N / 2, N - 2, N - 1];
                at.sort();
                at.dedup();
                for i in at {
                    put(&mut g, true, &[("num", num(i))], Num::<N>(i));
                }
                drive::<StaticLabelSet<Num<N>>>(id, false, &StaticLabelSet::new, &g)
            }
            macro_rules! sizes { ($($n:literal)*) => { match &id[1..] { $(stringify!($n) => run::<$n>(id),)* _ => panic!("no set {id}") } } }
            sizes!(3 5 16 17 31 33 64 65 100 127 129 255 256 257 300 511 513 777 1000 1023 1024 1025 2048 4097 65535 65537 99999)
        }
        "zero" => drive::<StaticLabelSet<Num<0>>>(id, true, &StaticLabelSet::new, &[]),
        "one" => {
            let mut g = vec![];
            for (kind, n) in KINDS {
                put(&mut g, true, &[("kind", n.into())], One { kind });
            }
            drive::<OneSet>(id, true, &OneSet::new, &g)
        }
        "two" => drive::<TwoSet>(id, true, &TwoSet::new, &two()),
        "four" => {
            let mut g = vec![];
            for (bit, b) in BITS {
                for (kind, k) in KINDS {
                    for i in 0..5 {
                        put(
                            &mut g,
                            true,
                            &[("n", num(i)), ("s", "only".into()), ("kind", k.into()), ("bit", b.into())],
                            Four { n: Num(i), s: Solo::Only, kind, bit },
                        );
                    }
                }
            }
            drive::<FourSet>(id, true, &FourSet::default, &g)
        }
        "fixed" => {
            let mut g: Gs<Fixed<'static>> = vec![];
            for (kind, k) in KINDS {
                for route in ROUTES.into_iter().chain(["/other", "/user/:i"]) {
                    for code in CODES.into_iter().chain(["20"]) {
                        for word in WORDS.into_iter().chain(["for"]) {
                            let inside = ROUTES.contains(&route) && CODES.contains(&code) && WORDS.contains(&word);
                            // few of the outsiders
                            if !inside && (k.len() + route.len() + code.len() + word.len()) % 5 != 0 {
                                continue;
                            }
                            put(
                                &mut g,
                                inside,
                                &[("kind", k.into()), ("route", route.into()), ("code", code.into()), ("word", word.into())],
                                Fixed { kind, route, code, word },
                            );
                        }
                    }
                }
            }
            drive::<FixedSet>(id, true, &|| FixedSet::new(routes(), CODES.into_iter().collect(), phf_set()), &g)
        }
        "phf" => {
            #[derive(Clone, LabelGroup)]
            #[label(set = WordSet)]
            struct Word<'a> {
                #[label(fixed_with = Arc<phf::OrderedSet<&'static str>>)]
                word: &'a str,
            }
            let mut g: Gs<Word<'static>> = vec![];
            for w in WORDS.into_iter().chain(["", "loo", "loopx", "Fn", "extern "]) {
                put(&mut g, PHF.contains(w), &[("word", w.into())], Word { word: w });
            }
            drive::<WordSet>(id, true, &|| WordSet::new(Arc::new(phf_set())), &g)
        }
        "indexed" => {
            let mut g: Gs<Indexed> = vec![];
            let names = ["x", "y z", ""];
            for c in [1u16, 2, 3, 65535, 0] {
                for n in names.into_iter().chain(["w", "X"]) {
                    let inside = c != 0 && names.contains(&n);
                    let shown = match c {
                        1 => "0.5",
                        2 => "1.0",
                        3 => "1.5",
                        0 => "0.0",
                        _ => "32767.5",
                    };
                    put(&mut g, inside, &[("code", shown.into()), ("name", n.into())], Indexed { code: Code(c), name: n.into() });
                }
            }
            drive::<IndexedSet>(
                id,
                true,
                &|| {
                    IndexedSet::new(
                        [65535, 3, 1, 2].into_iter().map(Code).collect(),
                        Arc::new(names.iter().map(|s| s.to_string()).collect()),
                    )
                },
                &g,
            )
        }
        "empty" => {
            let mut g: Gs<Indexed> = vec![];
            put(&mut g, false, &[("code", "0.5".into()), ("name", "x".into())], Indexed { code: Code(1), name: "x".into() });
            drive::<IndexedSet>(
                id,
                true,
                &|| IndexedSet::new(IndexSet::default(), Arc::new(["x".to_string()].into_iter().collect())),
                &g,
            )
        }
        "dyn" => {
            let mut g: Gs<Dyn<'static>> = vec![];
            for i in 0..60 {
                let p = leak(format!("/{}", "x".repeat(i % 30)));
                put(&mut g, true, &[("path", p.into())], Dyn { path: p });
            }
            drive::<DynSet>(id, false, &DynSet::new, &g)
        }
        "mix" => {
            let mut g: Gs<Mix<'static>> = vec![];
            for (kind, k) in KINDS {
                for (bit, b) in BITS {
                    for path in ["p", "q", "1", ""] {
                        for user in ["p", "1", ""] {
                            for route in ["", "/user/:id", "/none"] {
                                put(
                                    &mut g,
                                    route != "/none",
                                    &[
                                        ("kind", k.into()),
                                        ("path", path.into()),
                                        ("bit", b.into()),
                                        ("user", user.into()),
                                        ("route", route.into()),
                                    ],
                                    Mix { kind, path, bit, user, route },
                                );
                            }
                        }
                    }
                }
            }
            drive::<MixSet>(id, false, &|| MixSet::new(Arc::new(ThreadedRodeo::new()), routes()), &g)
        }
        "tiny" => {
            // more strings than there are keys: what has no identity is rejected, again and again
            let mut g: Gs<Tiny<'static>> = vec![];
            for i in 0..300 {
                for (bit, b) in BITS {
                    let p = leak(format!("p{}", if i < 270 { i } else { i - 270 }));
                    put(&mut g, true, &[("bit", b.into()), ("path", p.into())], Tiny { bit, path: p });
                    let n = g.len();
                    g[n - 1].0.inside = if i < 250 || i >= 270 { "yes" } else if i < 256 { "maybe" } else { "no" };
                }
            }
            drive::<TinySet>(id, false, &|| TinySet::new(ThreadedRodeo::<MicroSpur>::new()), &g)
        }
        "composed" => {
            let mut g = vec![];
            for (kind, k) in KINDS {
                for (b2, b) in BITS {
                    for i in 0..5 {
                        put(
                            &mut g,
                            true,
                            &[("kind", k.into()), ("num5", num(i)), ("b", b.into())],
                            Two { kind, n: Num(i) }.compose_with(b2),
                        );
                    }
                }
            }
            drive::<ComposedGroup<TwoSet, StaticLabelSet<Bit>>>(id, true, &|| ComposedGroup(TwoSet::new(), StaticLabelSet::new()), &g)
        }
        "nested" => {
            let mut g = vec![];
            for (kind, k) in KINDS {
                for (b2, b) in BITS {
                    for i in 0..4 {
                        for j in 0..5 {
                            put(
                                &mut g,
                                i != 3,
                                &[("b", b.into()), ("code", ["0.5", "1.0", "1.5", "2.0"][i].into()), ("name", "x".into()), ("kind", k.into()), ("num5", num(j))],
                                b2.compose_with(Indexed { code: Code(i as u16 + 1), name: "x".into() }.compose_with(Two { kind, n: Num(j) })),
                            );
                        }
                    }
                }
            }
            drive::<ComposedGroup<StaticLabelSet<Bit>, ComposedGroup<IndexedSet, Arc<TwoSet>>>>(
                id,
                true,
                &|| {
                    ComposedGroup(
                        StaticLabelSet::new(),
                        ComposedGroup(
                            IndexedSet::new([3, 1, 2].into_iter().map(Code).collect(), Arc::new(["x".to_string()].into_iter().collect())),
                            Arc::new(TwoSet::new()),
                        ),
                    )
                },
                &g,
            )
        }
        "composed-dyn" => {
            let mut g: Gs<ComposedGroup<Dyn<'static>, Two>> = vec![];
            for p in ["p", "q", "r"] {
                for (kind, k) in KINDS {
                    for i in 0..5 {
                        put(
                            &mut g,
                            true,
                            &[("path", p.into()), ("kind", k.into()), ("num5", num(i))],
                            Dyn { path: p }.compose_with(Two { kind, n: Num(i) }),
                        );
                    }
                }
            }
            drive::<ComposedGroup<DynSet, TwoSet>>(id, false, &|| ComposedGroup(DynSet::new(), TwoSet::new()), &g)
        }
        "alike" => {
            let mut g = vec![];
            for i in (0..42).rev() {
                put(&mut g, i < 40, &[("num", num(i))], Num::<40>(i));
            }
            drive::<Alike>(id, true, &|| Alike, &g)
        }
        "huge" => {
            let mut g = vec![];
            let v = [0, 1, 65535];
            for (kind, k) in KINDS {
                for a in v {
                    for b in v {
                        for (c, d) in [(0, 0), (1, 0), (0, 1), (65535, 65535)] {
                            put(
                                &mut g,
                                true,
                                &[("a", num(a)), ("b", num(b)), ("c", num(c)), ("d", num(d)), ("kind", k.into())],
                                Huge { a: Num(a), b: Num(b), c: Num(c), d: Num(d), kind },
                            );
                            let n = g.len();
                            g[n - 1].0.inside = "maybe";
                        }
                    }
                }
            }
            drive::<HugeSet>(id, false, &HugeSet::new, &g)
        }
        "brim" => {
            let mut g = vec![];
            let v = [0, 1, 65535];
            for a in v {
                for b in v {
                    for (c, d) in [(0, 0), (1, 0), (0, 1), (65535, 65535)] {
                        put(
                            &mut g,
                            true,
                            &[("a", num(a)), ("b", num(b)), ("c", num(c)), ("d", num(d))],
                            Brim { a: Num(a), b: Num(b), c: Num(c), d: Num(d) },
                        );
                        let n = g.len();
                        g[n - 1].0.inside = "maybe";
                    }
                }
            }
            drive::<BrimSet>(id, false, &BrimSet::new, &g)
        }
        "vast" => {
            let mut g: Gs<Vast<'static>> = vec![];
            for a in [0, 1, (1 << 32) - 1] {
                for b in [0, 1, (1 << 32) - 1] {
                    for c in 0..2 {
                        for p in ["p", "q"] {
                            put(
                                &mut g,
                                true,
                                &[("a", num(a)), ("path", p.into()), ("b", num(b)), ("c", num(c))],
                                Vast { a: Num(a), path: p, b: Num(b), c: Num(c) },
                            );
                            let n = g.len();
                            g[n - 1].0.inside = "maybe";
                        }
                    }
                }
            }
            drive::<VastSet>(id, false, &VastSet::new, &g)
        }
        "composed-huge" => {
            // no dense slots, but pairs are identities all the same
            let mut g = vec![];
            let v = [0usize, 1, (1 << 40) - 1];
            for a in v {
                for b in v {
                    g.push((
                        want(true, &[("num", num(a)), ("other", num(b))]),
                        Box::new(move || ComposedGroup(Num::<{ 1 << 40 }>(a), Other(b))) as Box<dyn Fn() -> _>,
                    ));
                }
            }
            drive::<ComposedGroup<StaticLabelSet<Num<{ 1 << 40 }>>, StaticLabelSet<Other>>>(
                id,
                false,
                &|| ComposedGroup(StaticLabelSet::new(), StaticLabelSet::new()),
                &g,
            )
        }
        _ => panic!("harness: no such set {id}"),
    }
}

#[derive(Clone, Copy)]
struct Other(usize);
impl LabelValue for Other {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64 - 3)
    }
}
impl FixedCardinalityLabel for Other {
    fn cardinality() -> usize {
        1 << 40
    }
    fn encode(&self) -> usize {
        self.0
    }
    fn decode(value: usize) -> Self {
        Other(value)
    }
}
impl measured::LabelGroup for Other {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        const N: &LabelName = LabelName::from_str("other");
        v.write_value(N, self);
    }
}

fn two() -> Gs<Two> {
    let mut g = vec![];
    for i in 0..5 {
        for (kind, k) in KINDS {
            put(&mut g, true, &[("kind", k.into()), ("num5", num(i))], Two { kind, n: Num(i) });
        }
    }
    g
}
#[allow(dead_code)]
fn _unused(_: Spur) {}
