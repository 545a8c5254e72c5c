"""C10, C11, C12, C14, C16: documents written by the real encoders, judged by TLC against the readers in
TextFormat.tla and ProtoWire.tla."""
from seq import *

COUNTS = [0, 1, 9, 2**31, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]
INTS = [0, 1, -1, 10, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"),
          float("-inf"), float("nan"), 1e16, 123456789012345680.0, 1 / 3, -2.5e-10]
WORDS = [b"a", b"b c", b"", b"x\\", b'"q"', b"l\nl", "é".encode(), b"}", b"a,b=\"c\"", b"#", b" "]
HELPS = [b"some help", b"back\\slash", b"line\nfeed", b"quote\"d", b"\\n", b"x ", b"TYPE x counter", b"\\", b"\n"]


class Names:
    """distinct valid names, none of them another one with a suffix"""

    def __init__(self, rng):
        self.rng, self.seen = rng, set()

    def metric(self):
        while True:
            n = "".join(self.rng.choice("abzAZ_:09") for _ in range(self.rng.choice([1, 2, 3, 9])))
            if re.fullmatch("[a-zA-Z_:][a-zA-Z0-9_:]*", n) and n not in self.seen and not re.search("(bucket|sum|count|total)$", n):
                self.seen.add(n)
                return n.encode()


def label_names(rng, k):
    pool = ["a", "le_", "_", "Z9", "__x", "kind", "A_b"]
    rng.shuffle(pool)
    return [p.encode() for p in pool[:k]]


def float_value(rng):
    return rng.choice(FLOATS) if rng.random() < 0.7 else unbits(rng.getrandbits(64))


def shape_fam(rng, sh, words):
    """an instance of a shape of ExportGen"""
    names = label_names(rng, len(sh["labels"]))
    rows = []
    for r in range(sh["all"]):
        row = []
        for n, t in zip(names, sh["labels"]):
            row.append((n, t, rng.choice(words) if t == "s" else rng.choice(INTS) if t == "i" else float_value(rng)))
        rows.append(row)
    # series need distinct labels
    if names:
        for r, row in enumerate(rows):
            n, t, v = row[0]
            row[0] = (n, t, b"%d" % r + v if t == "s" else INTS[(r + INTS.index(v)) % len(INTS)] if t == "i" else FLOATS[r] if r else v)
        if sh["labels"][0] == "f" and len({bits(row[0][2]) if row[0][2] == row[0][2] else -1 for row in rows}) < len(rows):
            rows[0][0] = (names[0], "f", 7.25)
    used = rng.sample(range(sh["all"]), sh["rows"]) if sh["all"] else []
    kind = sh["kind"]
    ops = []
    le = []
    if kind.startswith("hist"):
        n = int(kind[4:])
        le = sorted(rng.sample([-float("inf"), -3.5, -0.0, 0.1, 1.0, 2.0, 1e9, 1.7976931348623157e308, float("inf")], n))
        kind = "hist"
    for r in used:
        if kind == "counter":
            ops.append((r, "inc", rng.choice(COUNTS)))
        elif kind == "gauge":
            ops.append((r, "set", rng.choice(INTS)))
        elif kind == "fgauge":
            ops.append((r, "set", float_value(rng)))
        elif rng.random() < 0.4:
            cs = [rng.choice([0, 1, 2**31, 2**60, 2**62]) for _ in range(len(le))]
            ops.append((r, "raw", cs + [rng.choice([0, 1, 2**64 - 1 - sum(cs)]), float_value(rng)]))
        else:
            for _ in range(rng.randrange(5)):
                ops.append((r, rng.choice(["obs", "obsg", "obsm"]), rng.choice(le + FLOATS)))
            if not any(o[0] == r for o in ops):
                ops.append((r, "touch", 0))
    return Fam(kind, sh["rep"], rows, le, ops)


def long_docs(quick):
    """documents of megabytes: around the next step of the length prefixes, and well above any buffer"""
    docs = []
    for L in [2**21 - 70, 2**21 - 40, 2**21, 2**21 + 12345] + ([] if quick else [2**21 - k for k in range(1, 90)] + [2**22 + 1, 2**23]):
        docs.append(("long-label%d" % L, [Fam("gauge", "sparse", [[(b"l", "s", b"x" * L)], [(b"l", "s", b"y")]], [], [(0, "set", 3), (1, "set", -3)])],
                     [F(0, b"g", b"some help")]))
        docs.append(("long-help%d" % L, [Fam("counter", "one", [], [], [(0, "inc", 4)]), Fam("gauge", "one", [], [], [(0, "set", 1)])],
                     [F(0, b"c", b"x" * L), F(1, b"g", b"after")]))
        docs.append(("long-name%d" % L, [Fam("counter", "one", [], [], [(0, "inc", 4)]), Fam("gauge", "one", [], [], [(0, "set", 1)])],
                     [F(0, b"n" * L, b"help"), F(1, b"g", b"after")]))
    for n, L in [(40, 60000), (200, 20000), (3, 900000)]:
        rows = [[(b"a", "s", b"z%d" % r), (b"b", "s", b"x" * (L + r))] for r in range(n)]
        docs.append(("long-sum%d" % n, [Fam("counter", "unbounded", rows, [], [(r, "inc", r) for r in range(n)]), Fam("gauge", "one", [], [], [(0, "set", 1)])],
                     [F(0, b"many", b"series"), F(1, b"g", b"after")]))
    return docs


def wide_docs(rng, quick):
    """much of everything: special characters in one string, series, labels, families in a group, groups within groups"""
    docs = []
    for n in [1500, 4500] + ([] if quick else [300 * k for k in range(1, 30)]):
        junk = lambda: b"".join(rng.choice([b"\\", b'"', b"\n", b"\\n", b"a", "\u00e9".encode()]) for _ in range(n))
        docs.append(("specials%d" % n, [Fam("counter", "sparse", [[(b"l", "s", junk())], [(b"l", "s", b'"' * n)]], [], [(0, "inc", 3), (1, "inc", 4)])],
                     [F(0, b"g", junk()), ]))
    for n in [300, 1100] + ([] if quick else [2500, 5000]):
        docs.append(("series%d" % n, [Fam(k, "unbounded" if k == "counter" else "sparse", [[(b"l", "s", b"%d" % r)] for r in range(n)], [], [(r, "inc" if k == "counter" else "set", r) for r in range(n)])
                                      for k in ("counter", "gauge")], [F(0, b"c", b"many"), F(1, b"d")]))
    for n in [20, 70] + ([] if quick else [300]):
        docs.append(("labels%d" % n, [Fam("gauge", "sparse", [[(b"l%d" % c, "s", b"%d" % (c + r)) for c in range(n)] for r in range(3)], [], [(r, "set", r) for r in range(3)])],
                     [F(0, b"g", b"wide")]))
        docs.append(("families%d" % n, [Fam("counter", "one", [], [], [(0, "inc", k)]) for k in range(n)], [compose([F(k, b"f%d" % k, b"h" if k % 3 else None) for k in range(j, min(j + 8, n))]) for j in range(0, n, 8)]))
    return docs


def doc(ctx, i, fams, trees, encs):
    """the script that writes one document with each encoder"""
    lines = []
    for k, f in enumerate(fams):
        lines += f.script(k)
    for n, e in enumerate(encs):
        lines.append("enc e%d %s" % (n, e))
        lines += ["col e%d %s" % (n, tree_script(t)) for t in trees]
        lines += ["fin e%d" % n, "out e%d" % n]
    return (i, lines)


def outs(ls):
    """documents by encoder; whether every call succeeded"""
    res, ok = {}, True
    for l in ls:
        w = l.split()
        if w[0] == "out":
            res.setdefault(w[1], []).append(b"" if w[2] == "-" else bytes.fromhex(w[2]))
        if w[0] in ("col", "fin") and w[2] != "ok":
            ok = False
    return res, ok


LONG = 300000


def rope(v):
    """long runs of a byte b in the strings of v: n * 256 + b stands for n of them"""
    if isinstance(v, (bytes, bytearray)):
        r, at = [], 0
        for m in re.finditer(rb"(.)\1{63,}", v, re.S):
            r += list(v[at:m.start()]) + [(m.end() - m.start()) * 256 + v[m.start()]]
            at = m.end()
        return r + list(v[at:])
    if isinstance(v, list):
        if len(v) >= 64 and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            return rope(bytes(v))
        return [rope(x) for x in v]
    return {k: rope(x) for k, x in v.items()} if isinstance(v, dict) else v


def judge_docs(ctx, docs, encs, what):
    """docs: [(id, fams, trees)]"""
    exe = build(ctx)
    cases = [doc(ctx, i, f, t, encs) for i, f, t in docs]
    res = run_scripts(ctx, exe, cases)
    log("ran", len(cases), "documents")
    recs, src = [], {}
    total = 0
    for (i, fams, trees), (_, lines) in zip(docs, cases):
        if i not in res:
            continue
        p = harness_error(res[i])
        if p:
            ctx.violation("panic: " + p, {"case": i, "script": lines})
            continue
        o, ok = outs(res[i])
        if not ok:
            ctx.violation("writing failed without any fault", {"case": i, "script": lines, "output": res[i]})
            continue
        for n, e in enumerate(encs):
            d = o["e%d" % n][0]
            total += 1
            k = "proto" if e.startswith("proto") else "text"
            if any(o["e%d" % m][0] == d and encs[m].startswith("proto") == (k == "proto") for m in range(n)):
                continue
            rid = "%s/%d" % (i, n)
            src[rid] = {"case": i, "encoder": e, "script": lines if len(d) < LONG else [l[:200] for l in lines],
                        "document": d[:LONG].decode(errors="backslashreplace")}
            if len(d) > LONG:
                recs.append({"id": rid, "k": k, "trees": rope(trees), "fams": rope([f.json() for f in fams]),
                             "bytes": ([-1] if k == "proto" else []) + rope(d), "tab": tokens(d) if k == "text" else []})
                ctx.add(long_documents=1, long_document_bytes=len(d))
                continue
            tab = tokens(d) if k == "text" else table({d[p + 2:p + 2 + d[p + 1]] for p in range(len(d) - 1) if d[p] == 0x12 and d[p + 1] < 32})
            recs.append({"id": rid, "k": k, "trees": trees, "fams": [f.json() for f in fams], "bytes": list(d), "tab": tab})
    ctx.add(documents=total, traces_validated_against_impl=total, distinct_documents=len(recs), document_bytes=sum(len(r["bytes"]) for r in recs))
    if recs:
        ctx.coverage["samples"] = [src[recs[len(recs) // 2]["id"]]["document"][:400]]
    judge(ctx, "ExportTrace", recs, what, explain=lambda b: src[b])


# ---------------------------------------------------------------- C10

def c10(ctx):
    rng = random.Random(ctx.seed)
    docs = []
    strings = [bytes(s) for s in gen(ctx, "strings", 3 if ctx.quick else 4)]
    strings.sort()
    helps = [s for s in strings if s[:1] not in (b" ", b"\t")]
    per = 10
    for k in range(0, len(strings), per):
        rows = [[(b"l", "s", s)] for s in strings[k:k + per]]
        f = Fam("gauge", "unbounded", rows, [], [(r, "set", r - 3) for r in range(len(rows))])
        docs.append(("str%d" % k, [f], [F(0, b"m", helps[(k // per) % len(helps)])]))
    # help texts, several families per document
    for k in range(0, len(helps), per):
        fs = [Fam("counter", "one", [], [], [(0, "inc", j)]) for j in range(3)]
        ts = [F(j, b"m%d" % j, h) for j, h in enumerate(helps[k:k + 3])]
        if not ctx.quick or k % (2 * per) == 0:
            docs.append(("help%d" % k, fs[:len(ts)], ts))
    # every value of the pools in every kind
    for k, v in enumerate(COUNTS):
        docs.append(("count%d" % k, [Fam("counter", "one", [], [], [(0, "inc", v)])], [F(0, b"c")]))
    for k, v in enumerate(INTS):
        docs.append(("int%d" % k, [Fam("gauge", "one", [], [], [(0, "set", v)])], [F(0, b"g")]))
        docs.append(("lint%d" % k, [Fam("gauge", "sparse", [[(b"i", "i", v)]], [], [(0, "set", 1)])], [F(0, b"g")]))
    fls = FLOATS + [unbits(rng.getrandbits(64)) for _ in range(40 if ctx.quick else 4000)]
    for k in range(0, len(fls), 5):
        fs = [Fam("fgauge", "one", [], [], [(0, "set", v)]) for v in fls[k:k + 5]]
        fs += [Fam("gauge", "sparse", [[(b"f", "f", fls[k])]], [], [(0, "set", 1)])]
        docs.append(("float%d" % k, fs, [F(j, b"g%d" % j) for j in range(len(fs))]))
    # shapes
    shapes = gen(ctx, "shapes")
    shapes.sort(key=json.dumps)
    rng.shuffle(shapes)
    hard = [s for s in strings if len(s) <= 8] + WORDS
    n = 500 if ctx.quick else 8000
    for k in range(n):
        names = Names(rng)
        fams, trees = [], []
        for j in range(rng.choice([1, 1, 2, 3, 4])):
            sh = shapes[(k + j * 977) % len(shapes)]
            fams.append(shape_fam(rng, sh, hard))
            h = None if sh["help"] == "none" else b"" if sh["help"] == "empty" else rng.choice(HELPS + helps)
            trees.append(F(j, names.metric(), h, "F" if sh["kind"].startswith("hist") else rng.choice("FFFFVW")))
        if rng.random() < 0.5:
            trees = [compose(trees)]
        docs.append(("doc%d" % k, fams, trees))
    ctx.coverage["strings"] = len(strings)
    judge_docs(ctx, [d for d in long_docs(ctx.quick) if "name" not in d[0]][:: 4 if not ctx.quick else 2], ["text", "buf", "text 100000"], "the long document does not read back to what was recorded")
    docs += wide_docs(rng, ctx.quick)
    judge_docs(ctx, docs, ["text", "buf", "text 1"], "the document does not read back to what was recorded")


# ---------------------------------------------------------------- C12

def c12(ctx):
    rng = random.Random(ctx.seed)
    docs = []
    # families with and without samples, with and without help, in every order
    alpha = [(k, h, e) for k in ("counter", "gauge") for h in (None, b"help") for e in (0, 1)]
    seqs = [()]
    for _ in range(3 if ctx.quick else 4):
        seqs += [s + (a,) for s in seqs if len(s) == max(map(len, seqs)) for a in alpha]
    for n, s in enumerate(s for s in seqs if s):
        fams, trees = [], []
        for j, (k, h, e) in enumerate(s):
            fams.append(Fam(k, "sparse", [[(b"l", "s", b"v")]], [], [(0, "inc" if k == "counter" else "set", j + 1)] * e))
            # a name that is a prefix of another one, and equal lengths
            trees.append(F(j, [b"aa", b"a", b"ab", b"aaa"][j], h and h * (j + 1)))
        docs.append(("order%d" % n, fams, trees if n % 2 else [compose(trees)]))
    # sizes around the steps of the length prefixes
    for L in list(range(88, 132)) + list(range(16332, 16388, 1 if not ctx.quick else 5)):
        fams = [Fam("counter", "one", [], [], [(0, "inc", L)]),
                Fam("gauge", "sparse", [[(b"l", "s", b"x" * L)]], [], [(0, "set", L)]),
                Fam("fgauge", "one", [], [], [(0, "set", 1.5)])]
        docs.append(("size%d" % L, fams, [F(0, b"n" * L if L < 1000 else b"n", b"h" * L), F(1, b"g", b"some help"), F(2, b"f")]))
    for n in (1, 5, 6, 7, 130, 600 if ctx.quick else 5000):
        rows = [[(b"l", "i", r), (b"m", "s", b"x" * (r % 3))] for r in range(n)]
        docs.append(("many%d" % n, [Fam("counter", "unbounded", rows, [], [(r, "inc", 2**r % (2**64 - 1)) for r in range(n)])],
                     [F(0, b"many", b"series")]))
    for k, v in enumerate(COUNTS + [rng.getrandbits(64) for _ in range(40)]):
        docs.append(("count%d" % k, [Fam("counter", "one", [], [], [(0, "inc", v)])], [F(0, b"c")]))
    for k, v in enumerate(INTS + [rng.getrandbits(64) - 2**63 for _ in range(40)]):
        docs.append(("int%d" % k, [Fam("gauge", "one", [], [], [(0, "set", v)]),
                                   Fam("gauge", "sparse", [[(b"i", "i", v)]], [], [(0, "set", 1)])], [F(0, b"g"), F(1, b"h")]))
    for k, v in enumerate(FLOATS + [unbits(rng.getrandbits(64)) for _ in range(60)]):
        docs.append(("float%d" % k, [Fam("fgauge", "one", [], [], [(0, "set", v)]),
                                     Fam("gauge", "sparse", [[(b"f", "f", v)]], [], [(0, "set", 1)])], [F(0, b"g"), F(1, b"h")]))
    shapes = [s for s in gen(ctx, "shapes") if not s["kind"].startswith("hist")]
    shapes.sort(key=json.dumps)
    rng.shuffle(shapes)
    strings = sorted(bytes(s) for s in gen(ctx, "strings", 2))
    for k in range(400 if ctx.quick else 8000):
        names = Names(rng)
        fams, trees = [], []
        for j in range(rng.choice([1, 2, 3, 4, 6])):
            sh = shapes[(k + j * 977) % len(shapes)]
            fams.append(shape_fam(rng, sh, strings))
            h = None if sh["help"] == "none" else b"" if sh["help"] == "empty" else rng.choice(HELPS + strings)
            trees.append(F(j, names.metric(), h, "F" if sh["kind"].startswith("hist") else rng.choice("FFFFVW")))
        if rng.random() < 0.5:
            trees = [compose(trees)]
        docs.append(("doc%d" % k, fams, trees))
    judge_docs(ctx, long_docs(ctx.quick), ["proto", "proto 100000"], "the long protobuf document does not decode to what was recorded")
    docs += wide_docs(rng, ctx.quick)
    judge_docs(ctx, docs, ["proto", "proto 3"], "the protobuf document does not decode to what was recorded")

# ---------------------------------------------------------------- C11, C14

def small_palettes(kind):
    """groups that are collected one after the other: (families, {group: tree})"""
    lab = [(b"l", "s", b"a\n"), (b"k", "i", 7)]
    lab2 = [(b"l", "s", b"b"), (b"k", "i", -7)]
    cnt = Fam("counter", "sparse", [lab, lab2, lab[:1]], [], [(0, "inc", 3), (1, "inc", 2**63)])
    gau = Fam("gauge", "one", [], [], [(0, "set", -5)])
    emp = Fam("gauge", "sparse", [lab], [], [])
    flo = Fam("fgauge", "dense", [[(b"x", "s", b"y")]], [], [(0, "set", 0.5)])
    his = Fam("hist", "sparse", [lab], [0.5, 1.0, 2.0], [(0, "obs", 0.75), (0, "obs", 9.0)])
    if kind == "proto":
        his = Fam("counter", "unbounded", [lab], [], [(0, "inc", 2)])
    fams = [cnt, gau, emp, flo, his]
    return [
        # groups that write their samples themselves
        (fams, {1: C(F(0, b"requests", b"all", "W"), F(1, b"now", None, "W")), 2: C(F(3, b"ratio", None, "V"), F(1, b"low", b"h", "V")),
                3: F(0, b"more", None, "W")}),
        (fams, {1: C(F(0, b"requests", b"all\\ requests"), F(1, b"now")), 2: C(F(4, b"latency", b"how long"), F(3, b"ratio")),
                3: F(2, b"nothing")}),
        (fams, {1: F(1, b"a"), 2: F(2, b"b", b"no samples"), 3: C(F(2, b"c"), F(3, b"c2", b"x"))}),
        (fams, {1: C(F(2, b"a", b"h"), F(0, b"b")), 2: C(F(4, b"d"), F(2, b"e", b"i")), 3: {"t": "Z"}}),
    ]


def big_palette(kind):
    """documents well above the sizes of buffers: 64 KiB and more for a group"""
    rows = [[(b"label", "s", b"%05d-" % i + b"x" * (i % 90)), (b"k", "i", i)] for i in range(900)]
    cnt = Fam("counter", "sparse", rows, [], [(i, "inc", i) for i in range(900)])
    gau = Fam("gauge", "one", [], [], [(0, "set", -5)])
    return [cnt, gau], {1: C(F(0, b"requests", b"all"), F(1, b"now")), 2: F(1, b"x", b"y" * 40000), 3: F(1, b"z")}


def group_lists(n):
    ls = [()]
    for _ in range(n):
        ls += [l + (g,) for l in ls if len(l) == max(map(len, ls)) for g in (1, 2, 3)]
    return ls


def fresh_documents(ctx, exe, pals, kinds, n):
    """documents of fresh encoders: {(palette, kind): {groups: bytes}}; also judged as documents of their own"""
    cases, key = [], {}
    for pi, pal in pals.items():
        for kind in kinds:
            fams, trees = pal[kind]
            for li, l in enumerate(group_lists(n)):
                i = "fresh-%d-%s-%d" % (pi, kind, li)
                key[i] = (pi, kind, l)
                cases.append(doc(ctx, i, fams, [trees[g] for g in l], [kind]))
    res = run_scripts(ctx, exe, cases)
    tables, recs, src = {}, [], {}
    for i, lines in cases:
        if i not in res:
            continue
        pi, kind, l = key[i]
        p = harness_error(res[i])
        o, ok = outs(res[i])
        if p or not ok:
            ctx.violation("a fresh encoder fails: %s" % p, {"case": i, "script": lines, "output": res[i]})
            continue
        d = o["e0"][0]
        tables.setdefault((pi, kind), {})[l] = d
        fams, trees = pals[pi][kind]
        src[i] = {"case": i, "script": lines, "document": d.decode(errors="backslashreplace")}
        if len(set(l)) < len(l) or len(d) > 20000:
            continue  # (C10 judges long ones) a document with a family twice is not readable by anyone's standard
        recs.append({"id": i, "k": "proto" if kind == "proto" else "text", "trees": [trees[g] for g in l],
                     "fams": [f.json() for f in fams], "bytes": list(d), "tab": tokens(d)})
    ctx.add(fresh_documents=len(recs))
    judge(ctx, "ExportTrace", recs, "a document of several groups does not read back to what was recorded", explain=lambda b: src[b])
    return tables


def judge_histories(ctx, recs, tables, src, what):
    order = sorted(tables)
    tabs = [[{"groups": list(l), "doc": list(d)} for l, d in sorted(tables[k].items())] for k in order]
    for r in recs:
        r["table"] = 1 + order.index(r["table"])
    ctx.add(traces_validated_against_impl=len(recs))
    judge(ctx, "EncoderTrace", recs, what, explain=lambda b: src[b],
          wrap=lambda p: {"tables": tabs, "cases": p}, states=lambda p: sum(len(r["calls"]) + 1 for r in p))


def calls_of(ls, groups):
    """the calls of a recorded history; every call is followed by an out, or only finishes are"""
    calls, gi = [], iter(groups)
    for l in ls:
        w = l.split()
        if w[0] in ("col", "fin"):
            calls.append({"k": w[0], "g": next(gi) if w[0] == "col" else 0, "err": w[2] == "err",
                          "fault": any(c in w[5] for c in "ezf"), "got": []})
        elif w[0] == "out":
            calls[-1]["got"] = list(bytes.fromhex(w[2])) if w[2] != "-" else []
    return calls


def c11(ctx):
    exe = build(ctx)
    kinds = ["text", "buf", "proto"]
    n = 4 if ctx.quick else 6
    acts = sorted(a for a in gen(ctx, "actions", n) if a)
    pals = {}
    for pi in range(4):
        pals[pi] = {k: small_palettes(k)[pi] for k in kinds}
    pals[4] = {k: big_palette(k) for k in kinds}
    tables = fresh_documents(ctx, exe, pals, kinds, n)
    # documents are interned: they are equal or not
    ids = {b"": []}

    def intern(d):
        d = bytes(d)
        if d not in ids:
            ids[d] = [len(ids)]
        return ids[d]

    cases, meta = [], {}
    code = {"a": 1, "b": 2, "e": 3}
    for pi in pals:
        for kind in kinds:
            fams, trees = pals[pi][kind]
            for ai, a in enumerate(acts):
                if pi and ctx.quick and ai % 2 or pi == 4 and len(a) > 3:
                    continue
                i = "h-%d-%s-%s" % (pi, kind, "".join(a))
                lines = []
                for k, f in enumerate(fams):
                    lines += f.script(k)
                lines.append("enc x " + kind)
                for x in a + ["f"]:
                    lines += ["fin x", "out x"] if x == "f" else ["col x " + tree_script(trees[code[x]])]
                meta[i] = (pi, kind, a, lines)
                cases.append((i, lines))
    res = run_scripts(ctx, exe, cases)
    log("ran", len(cases), "histories of encoders")
    recs, src = [], {}
    for i, (pi, kind, a, lines) in meta.items():
        if i not in res:
            continue
        p = harness_error(res[i])
        if p:
            ctx.violation("panic: " + p, {"case": i, "script": lines})
            continue
        calls = calls_of(res[i], [code[x] for x in a if x != "f"])
        src[i] = {"case": i, "actions": a + ["f"], "script": lines,
                  "documents": [bytes(c["got"]).decode(errors="backslashreplace") for c in calls if c["k"] == "fin"]}
        for c in calls:
            c["got"] = intern(c["got"])
        recs.append({"id": i, "kind": kind, "table": (pi, kind), "calls": calls})
    tables = {k: {l: intern(d) for l, d in t.items()} for k, t in tables.items()}
    if recs:
        ctx.coverage["samples"] = [src[recs[len(recs) // 2]["id"]]]
    judge_histories(ctx, recs, tables, src, "a document of a used encoder is not what a fresh one writes")


def c14(ctx):
    rng = random.Random(ctx.seed)
    exe = build(ctx)
    kinds = ["text", "proto"]
    pals = {pi: {k: small_palettes(k)[pi] for k in kinds} for pi in range(4)}
    tables = fresh_documents(ctx, exe, pals, kinds, 3)
    # the histories: groups and finishes, as enumerated by the specification
    hs = ["abf", "affbf", "afabf", "ebafaf", "abfbf", "bfaf"] if ctx.quick else \
        sorted("".join(a) + "f" for a in gen(ctx, "actions", 4) if a)
    code = {"a": 1, "b": 2, "e": 3}

    def script(pi, kind, h, chunk, plan):
        fams, trees = pals[pi][kind]
        lines = []
        for k, f in enumerate(fams):
            lines += f.script(k)
        lines.append("enc x %s %s %s" % (kind, chunk, " ".join(plan)))
        for x in h:
            lines += ["fin x" if x == "f" else "col x " + tree_script(trees[code[x]]), "out x"]
        # the metrics are still usable: an update, a new series, a scrape by someone else
        lines += ["op 0 2 inc 1", "op 4 0 %s" % ("inc 5" if kind == "proto" else "obs " + fhex(0.25)), "op 3 0 set " + fhex(2.5),
                  "enc y buf", "col y " + tree_script(trees[1]), "col y " + tree_script(trees[2]), "fin y", "out y"]
        return lines

    # a run without faults tells how often the destination is called
    first = [("n-%d-%s-%s-%s" % (pi, kind, h, ch), script(pi, kind, h, ch, [])) for pi in pals for kind in kinds for h in hs
             for ch in ("-", "5")]
    res = run_scripts(ctx, exe, first)
    cases, meta = [], {}

    def case(pi, kind, h, ch, plan):
        i = "f-%d-%s-%s-%s-%s" % (pi, kind, h, ch, "+".join(plan))
        if i not in meta:
            lines = script(pi, kind, h, ch, plan)
            meta[i] = (pi, kind, h, lines)
            cases.append((i, lines))

    points = 0
    for i, lines in first:
        if i not in res or harness_error(res[i]):
            ctx.violation("writing fails without any fault", {"case": i, "script": lines, "output": res.get(i)})
            continue
        _, pi, kind, h, ch = i.split("-", 4)
        pi = int(pi)
        w = [l.split() for l in res[i] if l.startswith(("col x", "fin x"))]
        writes, flushes = int(w[-1][3]), int(w[-1][4])
        full = ch == "-"
        points += writes + flushes
        case(pi, kind, h, ch, [])
        step = 1 if full or not ctx.quick else 7
        off = rng.randrange(step)
        for k in range(off, writes, step):
            acts = ["e", "z", "i", "b", "1", "0"] if not ctx.quick else ["e", rng.choice("zb"), rng.choice(["i", "1"])]
            for a in acts:
                if a == "0":
                    continue
                case(pi, kind, h, ch, ["%d:%s" % (k, a)])
        for k in range(flushes):
            case(pi, kind, h, ch, ["f%d" % k])
        for _ in range(30 if ctx.quick else 300):
            ks = sorted(rng.sample(range(writes + 3), min(writes, rng.choice([2, 3, 5]))))
            plan = ["%d:%s" % (k, rng.choice(["e", "z", "b", "i", "i", "1", "2"])) for k in ks]
            if rng.random() < 0.2 and flushes:
                plan.append("f%d" % rng.randrange(flushes))
            case(pi, kind, h, ch, plan)
    if ctx.quick and len(cases) > 20000:
        cases = rng.sample(cases, 20000)
    res = run_scripts(ctx, exe, cases)
    log("ran", len(cases), "histories with faults;", points, "fault points")
    recs, src, usable = [], {}, {}
    faulty = 0
    for i, lines in cases:
        if i not in res:
            continue
        pi, kind, h, _ = meta[i]
        p = harness_error(res[i])
        if p:
            ctx.violation("panic after a failure of the destination: " + p, {"case": i, "script": lines})
            continue
        ls = [l for l in res[i] if l.split()[1] == "x"]
        calls = calls_of(ls, [code[x] for x in h if x != "f"])
        faulty += any(c["fault"] for c in calls)
        src[i] = {"case": i, "script": lines, "calls": [(l[:60]) for l in ls]}
        recs.append({"id": i, "kind": kind, "table": (pi, kind), "calls": calls})
        y = [l for l in res[i] if l.split()[1] == "y"]
        usable.setdefault((pi, kind, "\n".join(y)), []).append(i)
    ctx.add(evaluations=len(cases), distinct_nontrivial=faulty, fault_points=points)
    ctx.coverage["rule"] = ("histories of collect and finish calls; a fault at every call of the destination in a fault-free "
                            "run (error, error of a transient kind, nothing accepted, interruption, short write, flush "
                            "failure), and random combinations; non-trivial: the destination failed in it")
    if recs:
        ctx.coverage["samples"] = [src[recs[len(recs) // 2]["id"]]]
    judge_histories(ctx, recs, tables, src, "an output error is lost, or output is corrupted, after a failure of the destination")
    # what a later scrape by another encoder gives
    recs, src = [], {}
    for n, ((pi, kind, y), who) in enumerate(sorted(usable.items())):
        o, ok = outs(y.split("\n"))
        src["u%d" % n] = {"case": who[0], "script": meta[who[0]][3], "scrape": y}
        if not ok:
            ctx.violation("metrics cannot be used after a failure of the destination", src["u%d" % n])
            continue
        fams, trees = pals[pi][kind]
        fs = [Fam(f.kind, f.rep, f.rows, f.le, f.ops + x) for f, x in zip(fams, [
            [(2, "inc", 1)], [], [], [(0, "set", 2.5)], [(0, "inc", 5) if kind == "proto" else (0, "obs", 0.25)]])]
        d = o["y"][0]
        recs.append({"id": "u%d" % n, "k": "text", "trees": [trees[1], trees[2]], "fams": [f.json() for f in fs],
                     "bytes": list(d), "tab": tokens(d)})
    judge(ctx, "ExportTrace", recs, "metrics are damaged after a failure of the destination", explain=lambda b: src[b])
