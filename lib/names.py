"""C13: names."""
from seq import *

CTORS = ["metric", "try", "in_ns", "ns", "label"]
LEVELS = ["plain", "ns", "nstotal", "total", "count", "sum", "bucket", "custom"]


def c13(ctx):
    rng = random.Random(ctx.seed)
    exe = build(ctx)
    strings = [bytes(s) for s in gen(ctx, "names", 3 if ctx.quick else 4)]
    # every character in first and later position; longer strings with one odd character
    for c in list(range(0x80)) + [0x80, 0xFF, 0x100, 0x3B1, 0x660, 0x2160, 0xFF21, 0x1D7D8, 0x212A]:
        u = chr(c).encode()
        strings += [u, b"a" + u, u + b"a", b"_" + u + b"9"]
    good = "abcxyzABCXYZ0189_:"
    for _ in range(400 if ctx.quick else 20000):
        s = "".join(rng.choice(good) for _ in range(rng.choice([4, 9, 40, 300])))
        if rng.random() < 0.5:
            p = rng.randrange(len(s) + 1)
            s = s[:p] + rng.choice(["-", " ", "/", "`", "[", "{", "@", ";", "é", "\x7f", "١", "\0", "."]) + s[p:]
        strings.append(s.encode())
    strings = sorted(set(strings))
    scripts = []
    for k in range(0, len(strings), 40):
        scripts.append(("n%d" % k, ["name %s %s" % (c, hx(s)) for s in strings[k:k + 40] for c in CTORS]))
    comps = []
    valid = [s for s in strings if re.fullmatch(rb"[a-zA-Z_:][a-zA-Z0-9_:]*", s)]
    short = sorted(valid, key=len)[:60]
    n = 0
    for a in LEVELS:
        for b in LEVELS:
            for c in LEVELS:
                for _ in range(2 if ctx.quick else 20):
                    ops = [{"o": o, "a": list(rng.choice(short if rng.random() < 0.7 else valid)) if o in ("ns", "nstotal", "custom") else []}
                           for o in (a, b, c)]
                    comps.append((rng.choice(short if rng.random() < 0.7 else valid), ops))
    for k in range(0, len(comps), 40):
        scripts.append(("c%d" % k, ["comp %s %s" % (hx(base), " ".join(o["o"] + (":" + hx(o["a"]) if o["a"] else "") for o in ops))
                                    for base, ops in comps[k:k + 40]]))
    res = run_scripts(ctx, exe, scripts)
    recs = []
    for i, lines in scripts:
        if i not in res:
            continue
        for j, (q, a) in enumerate(zip(lines, res[i])):
            w, rid = a.split(), "%s/%d" % (i, j)
            if w[0] == "panic":
                ctx.violation("composing a name panics", {"query": q, "answer": a})
            elif w[0] == "name":
                ok = w[3] == "ok"
                recs.append({"id": rid, "k": "name", "ctor": w[1], "s": list(b"" if w[2] == "-" else bytes.fromhex(w[2])), "ok": ok,
                             "out": list(b"" if not ok or w[4] == "-" else bytes.fromhex(w[4])), "len": int(w[5]) if ok else 0})
            else:
                base, ops = comps[int(i[1:]) + j]
                recs.append({"id": rid, "k": "comp", "base": list(base), "ops": ops,
                             "outs": [{"b": list(bytes.fromhex(w[p])), "len": int(w[p + 1])} for p in (1, 3, 5)]})
    by = {r["id"]: r for r in recs}

    def explain(b):
        r = by[b]
        t = lambda x: bytes(x).decode(errors="replace")
        if r["k"] == "name":
            return {"constructor": r["ctor"], "string": t(r["s"]), "accepted": r["ok"], "name": t(r["out"]), "declared length": r["len"]}
        return {"base": t(r["base"]), "levels": [(o["o"], t(o["a"])) for o in r["ops"]],
                "names": [(t(o["b"]), o["len"]) for o in r["outs"]]}

    judge(ctx, "NameTrace", recs, "a name is accepted, rejected or spelled wrongly", explain=explain)
    ctx.add(evaluations=len(recs), distinct_nontrivial=sum(1 for r in recs if r["k"] == "comp" or not r["ok"]),
            traces_validated_against_impl=len(recs))
    ctx.coverage["rule"] = ("every string up to the stated length over characters of both grammars and around them, every ASCII "
                            "character in first and later position, long random strings; every composition of three levels; "
                            "non-trivial: a composed or a rejected name")
    ctx.coverage["samples"] = [explain(r["id"]) for r in recs[:: max(1, len(recs) // 5)]][:5]
