"""C21: declarations enumerated from DeclGen, compiled with the derive macros; TLC judges which have to compile."""
from seq import *
import derive

RULES = ["snake_case", "kebab-case", "SHOUTY_SNAKE_CASE", "SHOUTY-KEBAB-CASE", "UpperCamelCase", "lowerCamelCase", "Title Case", "Train-Case"]
ODD_RULES = ["", "snake case", "Snake_Case", "camelCase", "UPPERCASE", "title case", "none", "kebab_case"]
BOGUS = ["bogus", 'bogus = "x"', "bogus(x)", '"literal"', 'Rename = "x"', 'renamed = "x"', 'rename_al = "snake_case"', 'name = "x"', "skip", 'namespaces = "x"',
         "Flatten", "fix", 'fixed_with_ = Words', "defaults", "inits = 5", 'help = "x"', "1", "self = 5"]
GOOD = {"crate": ["crate = measured", "crate = ::measured"], "singleton": ['singleton = "kind"'], "set": ["set = DSet"], "fixed": ["fixed"],
        "fixed_with": ["fixed_with = Words"], "dynamic_with": ["dynamic_with = ThreadedRodeo"], "default": ["default"], "rename": ['rename = "ren"', 'rename = r"ren"'],
        "new": ["new()", "new(_a: u64)", "new(_a: u64, _b: String,)"], "namespace": ['namespace = "ns"'], "flatten": ["flatten"],
        "rename_all": ['rename_all = "%s"' % r for r in RULES]}
ODD = {"crate": ["crate = 5", "crate", 'crate = "measured"', "crate = no_such_crate"], "singleton": ["singleton", "singleton = 5", "singleton = kind", "singleton()"],
       "set": ["set", 'set = "DSet"', "set = 5", "set(DSet)"], "fixed": ["fixed = 5", "fixed(K3)", "fixed = true"],
       "fixed_with": ["fixed_with", 'fixed_with = "Words"', "fixed_with(Words)", "fixed_with = ThreadedRodeo"],
       "dynamic_with": ["dynamic_with", 'dynamic_with = "x"', "dynamic_with = Words", "dynamic_with = 5"], "default": ["default = true", "default()"],
       "rename": ["rename", "rename = 5", "rename = ren", 'rename("ren")'], "new": ["new", "new = 5", 'new = "x"', "new(5)"],
       "namespace": ["namespace", "namespace = 5", "namespace = ns"], "flatten": ["flatten = true", 'flatten = "ns"', "flatten()"],
       "rename_all": ['rename_all = "%s"' % r for r in ODD_RULES] + ["rename_all", "rename_all = snake_case", "rename_all = 5"],
       "init": ["init", "init()"], "metadata": ["metadata", "metadata()"], "label_set": ["label_set", "label_set(5)"]}


def attrs(rng, attr, args):
    """the arguments in one attribute, or in several"""
    if not args:
        return rng.choice(["", "", "#[%s()] " % attr])
    out, rest = "", list(args)
    while rest:
        k = rng.randrange(1, len(rest) + 1) if rng.random() < 0.4 else len(rest)
        out += "#[%s(%s%s)] " % (attr, ", ".join(rest[:k]), rng.choice(["", "", ","]))
        rest = rest[k:]
    return out


def render(rng, d):
    """Rust for one declaration"""
    x, shape = d["derive"], d["shape"]
    attr = "metric" if x == "metrics" else "label"
    has = lambda *a: any(i["a"] in a for i in d["inner"])
    names = ['"%s"' % bytes(n["s"]).decode() for n in d["names"]]
    # the type of the field: one that is right for every argument, so that nothing else is wrong with the declaration
    sorts = [i for i in d["inner"] if i["a"] in ("fixed", "fixed_with", "dynamic_with")]
    vals = {}
    if x == "labels":
        ty = "K3"
        vals = {"fixed_with": ["fixed_with = StaticLabelSet<K3>"], "dynamic_with": ["dynamic_with = Grows"]}
        if sorts and all(i["a"] != "fixed" for i in sorts) and (rng.random() < 0.5 or any(i["v"] == "odd" for i in sorts)):
            ty, vals = "&'a str", {}
    elif has("namespace", "flatten"):
        ty, init = rng.choice([("Sub", "Sub::new()"), ("Arc<Sub>", "Arc::new(Sub::new())"), ("Option<Sub>", "Some(Sub::new())")])
    elif has("label_set") and has("metadata"):
        ty, init = "HistogramVec<StaticLabelSet<K3>, 2>", "HistogramVec::with_label_set_and_metadata(StaticLabelSet::new(), Thresholds::with_buckets([1.0, 2.0]))"
    elif has("label_set"):
        ty, init = "CounterVec<StaticLabelSet<K3>>", "CounterVec::with_label_set(StaticLabelSet::new())"
    elif has("metadata"):
        ty, init = "Histogram<2>", "Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0]))"
    else:
        ty, init = rng.choice([("Counter", "Counter::new()"), ("Gauge", "Gauge::new()"), ("Option<Counter>", "None")])
    if x == "metrics":
        vals = {"init": ["init = " + init], "label_set": ["label_set = StaticLabelSet::new()"], "metadata": ["metadata = Thresholds::with_buckets([1.0, 2.0])"]}

    def value(i, place):
        a = i["a"]
        if a == "bogus":
            return rng.choice(BOGUS)
        if i["v"] == "odd":
            return rng.choice(ODD[a])
        if a == ("singleton" if x == "enum" else "rename") and names:
            return "%s = %s" % (a, names[0])
        return rng.choice(vals.get(a) or GOOD.get(a) or [a + " = 5"])

    def all_(place):
        args = [value(i, place) for i in d[place]]
        if any(i["a"] == "bogus" for i in d[place]) and rng.random() < 0.15:
            # not a list of arguments at all
            return rng.choice(["#[%s] ", '#[%s = "x"] ']) % attr + attrs(rng, attr, [value(i, place) for i in d[place] if i["a"] != "bogus"])
        return attrs(rng, attr, args)

    outer, inner = all_("outer"), all_("inner")
    head = {"enum": "#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]", "labels": "#[derive(Clone, LabelGroup)]",
            "metrics": "#[derive(MetricGroup)]"}[x]
    body = {"unit": "pub enum D { %sA, B }", "discs": "pub enum D { %sA = 3, B = 0x10 }", "tuplevariant": "pub enum D { %sA(u8), B }",
            "structvariant": "pub enum D { %sA { x: u8 }, B }", "exprdisc": "pub enum D { %sA = 1 + 2, B }", "negdisc": "pub enum D { %sA = -1, B }",
            "tuple": "pub struct D(%spub " + ty.replace("'a", "'static") + ");", "unitstruct": "pub struct D;",
            "union": "pub union D { %spub x: u64, pub y: i64 }"}
    if shape == "named":
        life = "<'a>" if "'a" in ty else ""
        second = ""
        if len(names) > 1:
            second = ", #[%s(rename = %s)] pub second: %s" % (attr, names[1], "Gauge" if x == "metrics" else "B2")
        elif rng.random() < 0.5:
            second = ", pub other: %s" % ("Gauge" if x == "metrics" else "B2")
        if x == "metrics":
            inner = rng.choice(["", "", "#[doc(hidden)] ", '#[doc(alias = "y")] ', "#[doc(hidden)] #[doc = \"help\"] "]) + inner
        first = "%spub x: %s" % (inner, ty)
        text = "pub struct D%s { %s }" % (life, first + second)
    else:
        if shape == "union" and "Clone" in head:
            head = head.replace("Clone, Copy, PartialEq, Debug, ", "").replace("Clone, ", "")
        if shape in ("tuple", "unitstruct", "union", "tuplevariant", "structvariant") and x == "enum":
            head = head.replace("Clone, Copy, PartialEq, Debug, ", "")
        text = body[shape]
        text = text % inner if "%s" in text else text
    return "%s %s\n%s" % (head, outer, text)


# what else may be in scope where a declaration stands: none of it may change what the declaration means
SCOPES = {"enum": ["pub enum Option { Some, None } use self::Option::*;", "pub type V = u8; pub trait T { type Output; }", "use std::fmt::Result;"],
          "labels": ["use std::io::Result;", "pub enum Outcome { Some, None, Ok, Err } use self::Outcome::*;", "pub type Option<A, B> = std::result::Result<A, B>;"],
          "metrics": ["use std::fmt::Result;", "use std::io::Result;", "pub enum Outcome { Some, None, Ok, Err } use self::Outcome::*;"]}


def scope(rng, d, text):
    if d["derive"] == "enum" and rng.random() < 0.1:
        return text.replace("enum D", "enum V")
    if rng.random() < 0.3 and "Option" not in text and "Some" not in text and "None" not in text:
        return rng.choice(SCOPES[d["derive"]]) + "\n" + text
    return text


SUB = """use crate::support::*;
#[derive(MetricGroup)]
#[metric(new())]
pub struct Sub { pub c: Counter }
impl Default for Sub { fn default() -> Self { Self::new() } }
/// a growing set of the same values
#[derive(Default)]
pub struct Grows;
impl measured::label::LabelSet for Grows {
    type Value<'a> = K3;
    fn dynamic_cardinality(&self) -> Option<usize> { None }
    fn encode(&self, v: K3) -> Option<usize> { Some(v as usize) }
    fn decode(&self, _: usize) -> K3 { K3::User }
}
impl measured::label::DynamicLabelSet for Grows {}
pub fn run() {}
"""


def cargo(ctx, decls):
    """the numbers of declarations that the compiler rejects this time, and what it says; decls: {number: text}"""
    src, where = SUB, {}
    for n, t in decls.items():
        line = src.count("\n") + 1
        src += "pub mod d%d { use crate::support::*; use super::{Grows, Sub};\n%s\n}\n" % (n, t)
        for k in range(line, src.count("\n") + 1):
            where[k] = n
    path = os.path.join(ctx.work, "gen.rs")
    with open(path, "w") as f:
        f.write(src)
    with Lock("gen"):
        r = run(["cargo", "check", "--offline", "--quiet", "--message-format=json", "--manifest-path", os.path.join(HARNESS, "gen", "Cargo.toml")],
                800, env=env({"CARGO_TARGET_DIR": derive.GEN, "GEN_RS": path, "RUSTFLAGS": "-Awarnings"}))
    bad, lost = {}, []

    def lines(spans):
        for s in spans:
            if s["file_name"].endswith("gen.rs"):
                yield s["line_start"]
            if s.get("expansion"):
                yield from lines([s["expansion"]["span"]])

    for l in r.stdout.decode(errors="replace").splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        m = m["message"]
        if m["message"].startswith("aborting due to"):
            continue
        spans = list(m["spans"]) + [s for c in m["children"] for s in c["spans"]]
        ns = {where[k] for k in lines(spans) if k in where}
        if not ns:
            lost.append(m["rendered"] or m["message"])
        for n in ns:
            bad.setdefault(n, m["message"])
    if lost or r.returncode != 0 and not bad:
        raise ToolError("the declarations cannot be compiled:\n" + ("".join(lost) or r.stderr.decode(errors="replace"))[-3000:])
    return bad, r.returncode == 0


def outcomes(ctx, texts):
    """{number: None, or the reason of the rejection}: the compiler says more once earlier errors are away"""
    left, why = dict(texts), {}
    for _ in range(12):
        bad, done = cargo(ctx, left)
        why.update(bad)
        for n in bad:
            del left[n]
        log("%d rejected, %d left" % (len(bad), len(left)))
        if done:
            return {n: why.get(n) for n in texts}
    raise ToolError("the compiler finds ever more errors")


def c21(ctx):
    rng = random.Random(ctx.seed)
    ds = gen(ctx, "args", 3 if ctx.quick else 4, spec="DeclGen") + gen(ctx, "names", 2 if ctx.quick else 3, spec="DeclGen")
    ds.sort(key=lambda d: json.dumps(d, sort_keys=True))
    if ctx.quick:
        short = [d for d in ds if len(d["outer"]) + len(d["inner"]) <= 3]
        ds = short + rng.sample([d for d in ds if d not in short], min(300, len(ds) - len(short)))
    texts, decl = {}, {}
    for d in ds:
        # every value of the wrong kind, and the arguments that no derive knows in several spellings
        odd = next((i["a"] for i in d["outer"] + d["inner"] if i["v"] == "odd"), None)
        n = len(ODD[odd]) * 3 if odd else 3 if any(i["a"] == "bogus" for i in d["outer"] + d["inner"]) else 1
        seen = set()
        for _ in range(n):
            t = scope(rng, d, render(rng, d))
            if t not in seen:
                seen.add(t)
                decl[len(texts)] = d
                texts[len(texts)] = t
    got = outcomes(ctx, texts)
    src, recs = {}, []
    for n, t in texts.items():
        src["d%d" % n] = {"declaration": t, "outcome": "accepted" if got[n] is None else "rejected: " + got[n][:300]}
        recs.append({"id": "d%d" % n, "decl": decl[n], "outcome": "rejected" if got[n] else "accepted"})
    judge(ctx, "DeclTrace", recs, "a declaration without a meaning compiles, or one with a meaning does not", explain=lambda i: src[i])
    rejected = sum(1 for r in recs if r["outcome"] == "rejected")
    ctx.add(evaluations=len(recs), distinct_nontrivial=rejected, declarations_enumerated=len(ds), rejected=rejected, accepted=len(recs) - rejected,
            traces_validated_against_impl=len(recs))
    ctx.coverage["rule"] = ("every sequence of arguments up to the stated length at an item and at a field or variant, with unknown and misplaced ones; every argument "
                            "with values of the wrong kind; every shape of item; names over a small alphabet, alone and in pairs; non-trivial: rejected")
    ctx.coverage["samples"] = [src[r["id"]] for r in recs[:: max(1, len(recs) // 4)]][:4]
