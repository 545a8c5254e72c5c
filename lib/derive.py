"""C16, C17: declarations enumerated by DeriveGen, compiled with the derive macros, run, judged by TLC."""
import itertools
from seq import *
import export, sets

GEN = os.path.join(BUILD, "gen")
HARD = ["a", "", 'q"q', "back\\slash", "line\nfeed", "é", "x y", "{}", "r#x"]


def rs(b):
    s = b if isinstance(b, str) else bytes(b).decode()
    return '"' + "".join(c if c.isalnum() and c.isascii() or c in " _-:/.,()" else "\\u{%x}" % ord(c) for c in s) + '"'


def compile_gen(ctx, src, owner=True):
    """the output lines of the generated program; None when the generated declarations do not compile"""
    path = os.path.join(ctx.work, "gen.rs")

    def cargo(src):
        with open(path, "w") as f:
            f.write(src)
        return run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "gen", "Cargo.toml")],
                   800, env=env({"CARGO_TARGET_DIR": GEN, "GEN_RS": path, "RUSTFLAGS": "-Awarnings"}))

    with Lock("gen"):
        r = cargo(src)
        err = r.stderr.decode(errors="replace")
        if r.returncode != 0:
            # the declarations, or all of it? (support.rs has some declarations of its own)
            places = set(re.findall(r"--> (\S+?):\d+:\d+", err))
            blame = places and all(p.endswith(("gen.rs", "gen/src/support.rs")) for p in places) and ("derive" in err or "gen.rs" in str(places)) \
                or cargo(program([], [])).returncode == 0
            if not blame:
                sys.stderr.write(err[-4000:])
                raise ToolError("the generated harness does not build")
            if owner:
                ctx.violation("a declaration the specification allows does not compile", {"stderr": err[:3000]})
            return None
        exe = os.path.join(ctx.work, "gen")
        shutil.copy(os.path.join(GEN, "debug", "gen"), exe)
    log("generated harness built")
    r = run(limited(exe), 600)
    if r.returncode != 0:
        ctx.violation("the generated program dies", {"status": r.returncode, "stderr": r.stderr.decode(errors="replace")[-1000:]})
    return r.stdout.decode(errors="replace").splitlines()


# ---------------------------------------------------------------- enums

RULES = ["", "snake_case", "kebab-case", "SHOUTY_SNAKE_CASE", "SHOUTY-KEBAB-CASE", "UpperCamelCase", "lowerCamelCase", "Title Case", "Train-Case"]
WORDLIST = ["Http", "HTTP", "Server", "XML", "x", "A", "IPv4", "Addr", "2", "404", "Not", "Found", "io", "iOS", "OK", "Get", "UTF8", "b2B"]
KEYWORDS = {"as", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
            "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true",
            "type", "unsafe", "use", "where", "while", "async", "await", "abstract", "become", "box", "do", "final", "macro", "override",
            "priv", "try", "typeof", "unsized", "virtual", "yield", "_"}


def enums(ctx, rng, src, run_):
    idents = sorted({bytes(s).decode() for s in gen(ctx, "idents", 4 if ctx.quick else 5, spec="DeriveGen")})
    for _ in range(60 if ctx.quick else 1500):
        w = "".join(rng.choice(WORDLIST) + rng.choice(["", "", "_"]) for _ in range(rng.randrange(1, 6)))
        if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", w) and w not in KEYWORDS:
            idents.append(w)
    raws = ["type", "match", "fn", "async", "Type", "r", "B1"]
    idents = sorted(set(idents))
    rng.shuffle(idents)
    decls = {}
    size = 60
    chunks = [idents[k:k + size] for k in range(0, len(idents), size)] + [["Only"], ["A", "B"], []]
    n = 0
    chunks += [["V%d" % k for k in range(300)]] + ([] if ctx.quick else [["Long%dName" % k for k in range(1100)]])
    for ci, ch in enumerate(chunks):
        for rule in RULES:
            # more variants than a byte can number
            if len(ch) > 250 and rule and rule != RULES[1]:
                continue
            if not ch and rule:
                continue
            i = "E%d" % n
            n += 1
            ints = rng.random() < 0.3
            vs, lines, disc = [], [], rng.randrange(3)
            used_raw = rng.sample(raws, 2) if ch and len(ch) > 2 else []
            for v in ch + [r for r in used_raw if r not in ch]:
                ren, d, attr = [-1], [-1], ""
                raw = "r#" if v in used_raw and v not in ch else ""
                if ints and rng.random() < 0.4:
                    disc += rng.randrange(1, 300)
                    form = rng.choice(["%d", "0x%x", "0b{0:b}", "%d_0"])
                    if form == "%d_0":
                        disc *= 10
                        lit = "%d_0" % (disc // 10)
                    else:
                        lit = form.format(disc) if "{" in form else form % disc
                    d = digits(disc)
                    lines.append("%s%s = %s," % (raw, v, lit))
                    disc += 0
                else:
                    disc += 1
                    if rng.random() < 0.12:
                        t = rng.choice(HARD)
                        ren = list(t.encode())
                        attr = "#[label(rename = %s)] " % rs(t)
                    lines.append("%s%s%s," % (attr, raw, v))
                vs.append({"ident": list(v.encode()), "rename": ren, "disc": d, "raw": raw + v})
            single = [-1]
            args = ["crate = measured"] if rng.random() < 0.2 else []
            if rule:
                args.append('rename_all = "%s"' % rule)
            if rng.random() < 0.4 and ch:
                s = rng.choice(["kind", "_", "a_B9", "le"])
                single = list(s.encode())
                args.append('singleton = "%s"' % s)
            rng.shuffle(args)
            if len(args) > 1 and rng.random() < 0.3:
                attrs = "".join("#[label(%s)]\n" % a for a in args)
            else:
                attrs = "#[label(%s)]\n" % ", ".join(args) if args else ""
            # an enum without variants cannot be matched on by reference: nothing to export
            if not ch:
                continue
            src.append("#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]\n%spub enum %s {\n%s\n}" % (attrs, i, "\n".join(lines)))
            src.append("fn run_%s() { let vs = [%s]; drive_enum(\"%s\", &vs, %s); }" % (
                i, ", ".join("%s::%s" % (i, v["raw"]) for v in vs), i, "single(&vs)" if single != [-1] else "vec![]"))
            run_.append("run_%s();" % i)
            decls[i] = {"rule": rule, "variants": vs, "singleton": single}
    return decls


# ---------------------------------------------------------------- label groups

W3 = ["w0", "w1", "w2"]
OUT = ["w", "w00"]
FIELD = {
    # type, set attribute, values inside [(expr, text)], outside, new-argument
    "kind": ("K3", "", [("K3::User", "user"), ("K3::InternalThing", "internal_thing"), ("K3::Network", 'net"')], [], None),
    "bit": ("B2", "", [("B2::Off", "off"), ("B2::On", "17")], [], None),
    "fixed": ("B2", "fixed", [("B2::Off", "off"), ("B2::On", "17")], [], None),
    "index": ("String", "fixed_with = IndexSet<String>", [('"%s".to_string()' % w, w) for w in W3], [('"%s".to_string()' % w, w) for w in OUT],
              'index(&["w2", "w0", "w1"])'),
    "reader": ("&'a str", "fixed_with = RodeoReader", [('"%s"' % w, w) for w in W3], [('"%s"' % w, w) for w in OUT], 'reader(&["w2", "w1", "w0"])'),
    "shared": ("&'a str", "fixed_with = Arc<RodeoReader>", [('"%s"' % w, w) for w in W3[:2]], [('"%s"' % w, w) for w in OUT],
               'Arc::new(reader(&["w1", "w0"]))'),
    "phf": ("&'a str", "fixed_with = Phf", [('"%s"' % w, w) for w in W3], [('"%s"' % w, w) for w in OUT], "words()"),
    "default": ("&'a str", "fixed_with = Words, default", [('"%s"' % w, w) for w in W3], [('"%s"' % w, w) for w in OUT], None),
    "dyn": ("&'a str", "dynamic_with = ThreadedRodeo", [('"%s"' % w, w) for w in W3], [], "ThreadedRodeo::new()"),
    "dyndef": ("&'a str", "dynamic_with = ThreadedRodeo, default", [('"%s"' % w, w) for w in W3], [], None),
    "dynarc": ("&'a str", "dynamic_with = Arc<ThreadedRodeo<MiniSpur>>", [('"%s"' % w, w) for w in W3[:2]], [], "Arc::new(ThreadedRodeo::new())"),
}
FNAMES = ["a", "b_c", "_d", "e9", "index", "index1", "card", "value", "r#type", "mul", "r#fn", "v", "zz", "this", "a_", "_1", "__2", "aB", "b__c"]


def groups(ctx, rng, src, run_, count):
    shapes = gen(ctx, "groups", 4, spec="DeriveGen")
    shapes.sort()
    small = [s for s in shapes if len(s) == 1]
    pairs = [s for s in shapes if len(s) == 2]
    rest = [s for s in shapes if len(s) > 2]
    pick = small + rng.sample(pairs, min(len(pairs), count // 2)) + rng.sample(rest, min(len(rest), count))
    # many fields
    pick += [[rng.choice(["kind", "bit", "fixed", "dyn", "dyndef"]) for _ in range(n)] for n in (7, 9, 12, 17)]
    metas = {}
    for n, shape in enumerate(pick):
        i = "G%d" % n
        names = rng.sample(FNAMES, len(shape))
        shown = []
        fields = []
        life = any(FIELD[k][0].startswith("&") for k in shape)
        for f, k in zip(names, shape):
            ty, attr, _, _, _ = FIELD[k]
            at = [attr] if attr else []
            label = f.replace("r#", "")
            if rng.random() < 0.3:
                label = rng.choice(["re_", "Le", "__"]) + label
                at.insert(rng.randrange(len(at) + 1), 'rename = "%s"' % label)
            shown.append(label)
            if len(at) > 1 and rng.random() < 0.3:
                pre = "".join("#[label(%s)] " % x for x in at)
            else:
                pre = "#[label(%s)] " % ", ".join(at) if at else ""
            fields.append("    %s%s: %s," % (pre, f, ty))
        src.append("#[derive(Clone, LabelGroup)]\n#[label(set = %sSet)]\nstruct %s%s {\n%s\n}" % (i, i, "<'a>" if life else "", "\n".join(fields)))
        dynamic = [k for k in shape if k.startswith("dyn")]
        # dynamic fields come first in new
        order = dynamic + [k for k in shape if not k.startswith("dyn")]
        args = ", ".join(FIELD[k][4] for k in order if FIELD[k][4])
        if len(shape) > 6:
            inside = sorted({tuple(rng.choice(FIELD[k][2]) for k in shape) for _ in range(60)})
        else:
            inside = list(itertools.product(*[FIELD[k][2] for k in shape]))
        full = len(shape) <= 6 and len(inside) <= 48
        if not full:
            inside = rng.sample(inside, 48)
        rng.shuffle(inside)
        outs = []
        for p, k in enumerate(shape):
            for o in FIELD[k][3]:
                base = list(rng.choice(inside))
                base[p] = o
                outs.append(tuple(base))
        rows = [(g, True) for g in inside] + [(g, False) for g in rng.sample(outs, min(len(outs), 6))]
        if rng.random() < 0.5:
            rng.shuffle(rows)
        body = []
        for g, ins in rows:
            body.append("put(&mut g, %s, &[%s], %s { %s });" % (
                "true" if ins else "false", ", ".join("(%s, %s.to_string())" % (rs(s), rs(t)) for s, (_, t) in zip(shown, g)),
                i, ", ".join("%s: %s" % (f, e) for f, (e, _) in zip(names, g))))
        src.append("fn run_%s() -> String { let mut g: Gs<%s%s> = vec![];\n%s\ndrive::<%sSet>(\"%s\", %s, &|| %sSet::new(%s), &g) }" % (
            i, i, "<'static>" if life else "", "\n".join(body), i, i, "true" if full and not dynamic else "false", i, args))
        run_.append('show_set("%s", run_%s);' % (i, i))
        metas[i] = {"fields": list(zip(names, shown, shape))}
    return metas


# ---------------------------------------------------------------- metric groups

DOCS = [None, None, "some help", 'quote"s and back\\slash', "a {brace} # TYPE", "é", "two lines|of help", "x|y z|w"]


class MGroups:
    def __init__(self, ctx, rng, src, run_):
        self.ctx, self.rng, self.src, self.run, self.n = ctx, rng, src, run_, 0
        self.done = []   # (ident, hist, args, tree builder)

    def name(self, used):
        while True:
            n = "".join(self.rng.choice("abcxyz_09") for _ in range(self.rng.choice([1, 2, 5])))
            if re.fullmatch("[a-z_][a-z0-9_]*", n) and n not in KEYWORDS and n not in used and not re.search("(bucket|sum|count)$", n):
                used.add(n)
                return n

    def make(self, shape):
        """one struct; leaves: [(path, kind, field data)]; the tree names leaves by position"""
        rng = self.rng
        i = "M%d" % self.n
        self.n += 1
        used, fields, updates, tree, life = set(), [], [], [], False
        hist = False
        args, call = [], []
        for k in shape:
            f = self.name(used)
            raw = f
            doc = rng.choice(DOCS)
            label = f
            at, doclines = [], ""
            if "-" in k:
                how, held = k.split("-")
                if not self.done:
                    continue
                # groups that are not too large
                sub = rng.choice([d for d in self.done if d["size"] < 14])
                ns = None
                if how == "ns":
                    ns = self.name(used)
                    if rng.random() < 0.2:
                        ns += rng.choice([":", ":z", "_q"])
                    at.append('namespace = "%s"' % ns)
                else:
                    at.append("flatten")
                # flattened groups must not repeat names
                ty, mk, acc, tr = sub["ty"], sub["new"], "", sub["tree"]
                ups = sub["updates"]
                if held == "arc":
                    ty, mk = "Arc<%s>" % ty, "Arc::new(%s)" % mk
                elif held == "ref":
                    ty, mk = "&'static %s" % ty, "leak(%s)" % mk
                elif held == "some":
                    ty, mk, acc = "Option<%s>" % ty, "Some(%s)" % mk, ".as_ref().unwrap()"
                elif held == "none":
                    ty, mk, tr, ups = "Option<%s>" % ty, "None", [], []
                elif held == "comp":
                    sub2 = rng.choice([d for d in self.done if d["size"] < 14])
                    ty = "ComposedGroup<%s, %s>" % (ty, sub2["ty"])
                    mk = "ComposedGroup(%s, %s)" % (mk, sub2["new"])
                    ups = [(".0" + a, b, c) for a, b, c in ups] + [(".1" + a, b, c) for a, b, c in sub2["updates"]]
                    off = len(sub["updates"])
                    tr = tr + shift(sub2["tree"], off)
                    hist = hist or sub2["hist"]
                hist = hist or sub["hist"]
                base = len(updates)
                t = {"t": "S", "s": shift(tr, base)}
                tree.append({"t": "N", "ns": list(ns.encode()), "a": t} if ns else {"t": "L", "a": t})
                updates += [("." + f + acc + a, b, c) for a, b, c in ups]
                at.append("init = %s" % mk)
            else:
                if rng.random() < 0.3:
                    label = self.name(used) + rng.choice(["", ":", ":x", "_total", "B"])
                    at.append('rename = "%s"' % label)
                if doc:
                    parts = doc.split("|")
                    if rng.random() < 0.3:
                        doclines = "".join("#[doc = %s] " % rs(" " + p) for p in parts)
                    elif all("\n" not in p for p in parts):
                        doclines = "".join("\n    ///%s%s" % (rng.choice([" ", "  "]), p) for p in parts) + "\n    "
                data = None
                if k == "counter":
                    ty = "Counter"
                elif k == "gauge":
                    ty = "Gauge"
                elif k == "fgauge":
                    ty = "FloatGauge"
                elif k in ("hist", "hvec"):
                    hist = True
                    le = sorted(rng.sample([-1.0, 0.5, 1.0, 2.5, 10.0, 1e9], 2))
                    md = "Thresholds::with_buckets([%s])" % ", ".join("%r_f64" % x for x in le)
                    data = {"le": le}
                    at.append("metadata = " + md)
                    ty = "Histogram<2>"
                    if k == "hvec":
                        ty = "HistogramVec<PathSet, 2>"
                if k in ("gvec", "hvec"):
                    ws = rng.sample(["p", "q", "r", "s"], 2)
                    if k == "gvec":
                        ty = "GaugeVec<PathSet>"
                    data = dict(data or {}, ws=ws)
                    if rng.random() < 0.5:
                        args.append("arg%d: RodeoReader" % len(args))
                        at.append("label_set = PathSet::new(arg%d)" % (len(args) - 1))
                        call.append("reader(&[%s])" % ", ".join('"%s"' % w for w in ws))
                    else:
                        at.append("label_set = PathSet::new(reader(&[%s]))" % ", ".join('"%s"' % w for w in ws))
                if k == "cvec":
                    ty = "CounterVec<StaticLabelSet<K3>>"
                if k == "some":
                    ty = "Option<Counter>"
                    at.append("init = Some(Counter::new())")
                if k == "none":
                    ty = "Option<Gauge>"
                    at.append("init = None")
                if k == "preset":
                    ty = "Counter"
                    v = rng.randrange(1, 10**9)
                    data = v
                    if rng.random() < 0.5:
                        args.append("arg%d: u64" % len(args))
                        at.append("init = preset(arg%d)" % (len(args) - 1))
                        call.append(str(v))
                    else:
                        at.append("init = preset(%d)" % v)
                tree.append({"t": "F", "fam": len(updates) + 1, "name": list(label.encode()),
                             "help": list(doc.replace("|", " ").encode()) if doclines else [-1]})
                updates.append(("." + f, k, data))
            rng.shuffle(at)
            if len(at) > 1 and rng.random() < 0.3:
                pre = "".join("#[metric(%s)] " % a for a in at)
            else:
                pre = "#[metric(%s)] " % ", ".join(at) if at else ""
            fields.append("    %s%s%s: %s," % (doclines, pre, f, ty))
        self.src.append("#[derive(MetricGroup)]\n#[metric(new(%s))]\npub struct %s {\n%s\n}" % (", ".join(args), i, "\n".join(fields)))
        d = {"ty": i, "new": "%s::new(%s)" % (i, ", ".join(call)), "tree": tree, "updates": updates, "hist": hist,
             "size": len(updates), "id": i}
        self.done.append(d)
        return d

    def drive(self, d, faults=None):
        """code that updates every leaf of a fresh group; what is then recorded; faults: histories of a failing destination"""
        rng = self.rng
        lines, fams = [], []
        for n, (path, k, data) in enumerate(d["updates"]):
            p = "g" + path
            v = n * 7 + rng.randrange(1, 7)
            if k == "none":
                fams.append(Fam("absent", "one", [], [], []))
            elif k in ("counter", "some", "preset"):
                q = p + (".as_ref().unwrap()" if k == "some" else "")
                lines.append("%s.inc_by(%d);" % (q, v))
                fams.append(Fam("counter", "one", [], [], [(0, "inc", v + (data if k == "preset" else 0))]))
            elif k == "gauge":
                lines.append("%s.set(-%d);" % (p, v))
                fams.append(Fam("gauge", "one", [], [], [(0, "set", -v)]))
            elif k == "fgauge":
                lines.append("%s.set(%d.5);" % (p, v))
                fams.append(Fam("fgauge", "one", [], [], [(0, "set", v + 0.5)]))
            elif k == "hist":
                x = rng.choice([-2.0, 0.5, 0.75, 3.0, 1e10])
                lines.append("%s.observe(%r_f64); %s.observe(%d.25);" % (p, x, p, n))
                fams.append(Fam("hist", "one", [], data["le"], [(0, "obs", x), (0, "obs", n + 0.25)]))
            elif k == "cvec":
                rows = [[(b"k3", "s", w)] for w in (b"user", b"internal_thing", b'net"')]
                ops = []
                for r, e in enumerate(["User", "InternalThing", "Network"]):
                    if rng.random() < 0.6:
                        lines.append("%s.inc_by(K3::%s, %d);" % (p, e, v + r))
                        ops.append((r, "inc", v + r))
                fams.append(Fam("counter", "dense", rows, [], ops))
            else:
                rows = [[(b"path", "s", w.encode()), (b"kind", "s", t)] for w in data["ws"] for t in (b"user", b'net"')]
                ops = []
                for r, (w, e) in enumerate([(w, e) for w in data["ws"] for e in ("User", "Network")]):
                    if rng.random() < 0.7:
                        key = 'Path { path: "%s", kind: K3::%s }' % (w, e)
                        if k == "gvec":
                            lines.append("%s.set(%s, %d);" % (p, key, v * 10 + r))
                            ops.append((r, "set", v * 10 + r))
                        else:
                            lines.append("%s.observe(%s, %d.75);" % (p, key, r))
                            ops.append((r, "obs", r + 0.75))
                # what is outside its own words is rejected
                for w in set("pqrs") - set(data["ws"]):
                    lines.append('assert!(%s.try_with_labels(Path { path: "%s", kind: K3::User }).is_none(), "foreign label set");' % (p, w))
                fams.append(Fam("gauge" if k == "gvec" else "hist", "dense", rows, data.get("le", []), ops))
        i = d["id"]
        if faults:
            call = '(\"%s\", &g, &[%s], %d);' % (i, ", ".join('"%s"' % h for h in faults), rng.randrange(12))
            self.src.append("fn run_%s() {\nlet g = %s;\n%s\nfaults_text%s\n%s}" % (
                i, d["new"], "\n".join(lines), call, "" if d["hist"] else "faults_proto" + call))
            self.run.append("run_%s();" % i)
            return fams
        self.src.append("fn run_%s() -> Vec<(&'static str, Vec<u8>)> {\nlet g = %s;\n%s\nvec![(\"text\", text(&g))%s] }" % (
            i, d["new"], "\n".join(lines), "" if d["hist"] else ', ("proto", proto(&g))'))
        self.run.append('show_doc("%s", run_%s);' % (i, i))
        return fams


def shift(tree, off):
    """the same groups with leaves numbered from off"""
    out = []
    for t in tree:
        t = dict(t)
        if t["t"] == "F":
            t["fam"] += off
        elif t["t"] == "S":
            t["s"] = shift(t["s"], off)
        else:
            t["a"] = shift([t["a"]], off)[0]
        out.append(t)
    return out


def leaves(t, ns=b""):
    if t["t"] == "F":
        return [ns + bytes(t["name"])]
    if t["t"] == "S":
        return [x for s in t["s"] for x in leaves(s, ns)]
    if t["t"] == "N":
        return leaves(t["a"], ns + bytes(t["ns"]) + b"_")
    return leaves(t["a"], ns)


def mgroups(ctx, rng, src, run_, count, leafs=12, faults=None):
    shapes = gen(ctx, "mgroups", 2, spec="DeriveGen")
    shapes.sort()
    m = MGroups(ctx, rng, src, run_)
    docs = {}
    leafy = [s for s in shapes if not any("-" in k for k in s)]
    pick = rng.sample(leafy, leafs) + [rng.choice(shapes) + rng.choice(shapes) for _ in range(count)]
    # many fields
    for n in ((17, 23) if not faults else ()):
        pick.append([rng.choice(["counter", "gauge", "fgauge", "some", "none", "gvec", "cvec", "preset"]) for _ in range(n)])
    for s in pick:
        d = m.make(s)
        names = leaves({"t": "S", "s": d["tree"]})
        # one family twice in one document cannot be told apart by a reader
        ambiguous = len(set(names)) < len(names) or any(a + x in names for a in names for x in (b"_bucket", b"_sum", b"_count"))
        if ambiguous or d["size"] > 24:
            # not to be used by later groups
            m.done.remove(d)
            continue
        docs[d["id"]] = (d, m.drive(d, faults))
    return docs


# ---------------------------------------------------------------- checks

def program(src, run_):
    return "use crate::support::*;\n%s\npub fn run() {\n%s\n}\n" % ("\n".join(src), "\n".join(run_))


def c17(ctx):
    rng = random.Random(ctx.seed)
    src, run_ = [], []
    decls = enums(ctx, rng, src, run_)
    gs = groups(ctx, rng, src, run_, 40 if ctx.quick else 400)
    out = compile_gen(ctx, program(src, run_))
    if out is None:
        return
    recs, grecs = [], []
    for l in out:
        if l.startswith("enum "):
            o = json.loads(l[5:])
            recs.append({"id": o["id"], "decl": decls[o["id"]], "obs": o["obs"]})
        elif l.startswith("set "):
            grecs.append(json.loads(l[4:]))
        elif l.startswith("panic "):
            w = l.split()
            ctx.violation("a derived label group panics", {"group": gs[w[1]], "panic": bytes.fromhex(w[2].replace("-", "")).decode(errors="replace")})
    if len(recs) != len(decls):
        raise ToolError("the generated program did not report every enum")
    by = {r["id"]: r for r in recs}

    def explain(i):
        r = by[i]
        t = lambda x: None if x == [-1] else bytes(x).decode(errors="replace")
        return {"rule": r["decl"]["rule"], "singleton": t(r["decl"]["singleton"]), "cardinality": r["obs"]["card"],
                "variants": [(t(v["ident"]), t(v["rename"]), t(v["disc"]), (s["t"], t(s["v"])))
                             for v, s in zip(r["decl"]["variants"], r["obs"]["shown"])][:80],
                "encode": r["obs"]["encode"], "decode": r["obs"]["decode"], "single": r["obs"]["single"][:3]}

    judge(ctx, "DeriveTrace", recs, "a derived label names or numbers a variant wrongly", explain=explain)
    ex = sets.explain_set(grecs)
    judge(ctx, "LabelSetTrace", grecs, "a derived label group", explain=lambda i: dict(ex(i), fields=gs[i]["fields"]), timeout=800)
    variants = sum(len(d["variants"]) for d in decls.values())
    ctx.add(enums=len(decls), variants=variants, label_groups=len(grecs), evaluations=variants + len(grecs),
            distinct_nontrivial=variants + len(grecs), traces_validated_against_impl=len(recs) + len(grecs))
    ctx.coverage["rule"] = ("every identifier over {A, b, 1, _} up to the stated length and random ones, under every renaming rule; "
                            "label groups over sequences of field kinds; all distinct")
    ctx.coverage["samples"] = [explain(recs[0]["id"])["variants"][:8], [g["fields"] for g in list(gs.values())[:5]]]


def tree_docs(ctx, rng):
    """group trees enumerated by the specification, with numbered leaves"""
    trees = gen(ctx, "trees", 3)
    trees.sort(key=json.dumps)
    if ctx.quick:
        trees = [t for t in trees if len(json.dumps(t)) < 60] + rng.sample(trees, 500)
    docs = []
    for n, t in enumerate(trees):
        fams, spaces = [], iter(rng.sample([b"n1", b"a", b"z_", b"_", b":x", b"ns_long", b"A9", b"b", b"c", b"d"], 8))

        def number(t):
            if t["t"] == "F":
                k = len(fams)
                kind = rng.choice(["counter", "gauge", "fgauge"])
                fams.append(Fam(kind, rng.choice(["one", "sparse"]), [[(b"l", "s", b"v")]], [],
                                [(0, "inc" if kind == "counter" else "set", k + 1.5 if kind == "fgauge" else k + 1)]))
                return F(k, b"leaf%d" % k, rng.choice([None, b"help %d" % k]))
            if t["t"] == "N":
                return {"t": "N", "ns": list(next(spaces)), "a": number(t["a"])}
            if t["t"] == "C":
                a = number(t["a"])
                return C(a, number(t["b"]))
            if t["t"] == "Z":
                return t
            return {"t": t["t"], "a": number(t["a"])}

        t = number(t)
        docs.append(("tree%d" % n, fams, [t] if n % 3 else [t, F(len(fams), b"after", b"last")]))
        if n % 3 == 0:
            fams.append(Fam("counter", "one", [], [], [(0, "inc", 99)]))
    return docs


def c16(ctx):
    rng = random.Random(ctx.seed)
    docs = tree_docs(ctx, rng)
    export.judge_docs(ctx, docs, ["text", "buf", "proto"], "a group does not export exactly its families")
    log("trees done")
    src, run_ = [], []
    ms = mgroups(ctx, rng, src, run_, 60 if ctx.quick else 500)
    out = compile_gen(ctx, program(src, run_))
    if out is None:
        return
    recs, what = [], {}
    decl = {m.group(1): m.group(0) for m in re.finditer(r"#\[derive\(MetricGroup\)\]\n.*?struct (M\d+) \{.*?\n\}", "\n".join(src), re.S)}
    for l in out:
        w = l.split()
        if w[0] == "panic":
            ctx.violation("a derived metric group panics", {"group": decl[w[1]], "panic": bytes.fromhex(w[2].replace("-", "")).decode(errors="replace")})
        elif w[0] == "doc":
            d, fams = ms[w[1]]
            b = b"" if w[3] == "-" else bytes.fromhex(w[3])
            rid = w[1] + w[2]
            what[rid] = {"group": decl[w[1]], "document": b.decode(errors="backslashreplace")}
            tab = tokens(b) if w[2] == "text" else table({b[p + 2:p + 2 + b[p + 1]] for p in range(len(b) - 1) if b[p] == 0x12 and b[p + 1] < 32})
            recs.append({"id": rid, "k": w[2], "trees": [{"t": "S", "s": d["tree"]}], "fams": [f.json() for f in fams], "bytes": list(b),
                         "tab": tab, "ws": True})
    if len({r["id"] for r in recs if r["k"] == "text"}) + sum(1 for l in out if l.startswith("panic")) != len(ms):
        raise ToolError("the generated program did not report every group")
    judge(ctx, "ExportTrace", recs, "a derived group does not export exactly its families", explain=lambda i: what[i])
    ctx.add(derived_groups=len(ms), evaluations=len(docs) + len(recs), distinct_nontrivial=len(docs) + len(recs),
            traces_validated_against_impl=len(recs))
    ctx.coverage["rule"] = ("group trees enumerated by TLC with numbered leaves, in text and protobuf; derived groups over fields of every "
                            "kind, nested in each other; all distinct")
    ctx.coverage["samples"] = [what[r["id"]] for r in recs[::max(1, len(recs) // 2)]][:2]
