"""C14 for the groups that are not built from the encoders' own families: collectors and derived groups."""
from seq import *
import derive, export, proc, tok


def groups_of(h):
    """the numbers of groups of its documents"""
    return [len(d) for d in h.split("f")[:-1]]


def histories(ctx, outputs, what):
    """outputs: [(source, description, lines)]; lines of harness/faulty.rs"""
    tables, recs, src = {}, [], {}
    n = points = 0
    for source, desc, lines in outputs:
        for l in lines:
            w = l.split()
            if w[0] != "fault":
                continue
            gid, kind, h, plan, calls = w[1], w[2], w[3], w[4], [c.split(":") for c in w[5:]]
            key = (source, gid, kind)
            rid = "h%d" % n
            n += 1
            info = {"source": desc, "group": gid, "encoder": kind, "history": h, "destination": plan,
                    "calls": ["%s %s%s, %d bytes" % (c, r, " (destination failed)" if f == "1" else "", len(g) // 2) for c, r, f, g in calls]}
            if any(r == "panic" for _, r, _, _ in calls):
                ctx.violation("panic when the destination fails", info)
                continue
            if plan == "-":
                if any(r != "ok" for _, r, _, _ in calls):
                    ctx.violation("writing fails without any fault", info)
                    continue
                t = tables.setdefault(key, {(): b""})
                doc, k = b"", 0
                for c, _, _, g in calls:
                    doc += bytes.fromhex(g)
                    k += c == "c"
                    if c == "f":
                        t.setdefault((1,) * k, doc)
                        doc, k = b"", 0
            else:
                points += 1
            src[rid] = info
            recs.append({"id": rid, "kind": kind, "table": key,
                         "calls": [{"k": "col" if c == "c" else "fin", "g": 1 if c == "c" else 0, "err": r == "err", "fault": f == "1",
                                    "got": list(bytes.fromhex(g))} for c, r, f, g in calls]})
    # a history without its fault-free run is judged already
    recs = [r for r in recs if r["table"] in tables and all((1,) * k in tables[r["table"]] for k in range(1 + max(
        len(p) for p in src[r["id"]]["history"].split("f"))))]
    ctx.add(traces_validated_against_impl=len(recs))
    recs.sort(key=lambda r: r["table"])

    def wrap(part):
        order = sorted({r["table"] for r in part})
        return {"tables": [[{"groups": list(l), "doc": list(d)} for l, d in sorted(tables[k].items())] for k in order],
                "cases": [dict(r, table=1 + order.index(r["table"])) for r in part]}

    judge(ctx, "EncoderTrace", recs, what, explain=lambda b: src[b], wrap=wrap, states=lambda p: sum(len(r["calls"]) + 1 for r in p))
    return len(recs), points


HS = ["f", "cf", "ccf", "cfcf"]


def collectors(ctx, rng):
    """the process collector, over a constant /proc and a stopped process; the runtime collectors, over idle runtimes"""
    out = []
    exe = proc.build_proc(ctx)
    cases = []
    roots = os.path.join(ctx.work, "froots")
    for k in range(3 if ctx.quick else 12):
        f = proc.Fake(rng)
        os.makedirs("%s/%d" % (roots, k))
        cases.append(("fake%d" % k, ["fake %s/%d" % (roots, k)] + f.boot() + f.files() + ["pid 4242", "dir /proc/4242/fd", "make p",
                                                                                         "fault p %d %s" % (rng.randrange(12), " ".join(HS))]))
    cases.append(("real", ["spawn", "make p", "fault p %d %s" % (rng.randrange(12), " ".join(HS))]))
    res = run_scripts(ctx, exe, cases, timeout=600)
    for cid, lines in cases:
        ls = res.get(cid, [])
        if any(l.split()[0] in ("panic", "died") for l in ls):
            ctx.violation("a collector panics when the destination fails", {"script": lines, "output": [l[:200] for l in ls]})
        out.append(("proc-" + cid, lines[-3:], ls))
    shutil.rmtree(roots, ignore_errors=True)
    for net in (True, False):
        exe = tok.build_tok(ctx, net=net)
        cases = []
        for k in range((4 if net else 1) if ctx.quick else 12):
            m = rng.choice([1, 2]) if k else 1
            lines = ["rt cur 1 lin:2:10 %s 1" % rng.choice(["io", "-"]), "rt cur 1 - - 1"][:m]
            lines += ["work %d tasks %d" % (r, rng.choice([1, 7])) for r in range(m)]
            if k % 2:
                lines += ["single 0 %s" % ("none" if k == 1 else hx(rng.choice(tok.NAMES)))]
            else:
                lines += ["named"] + ["add 0 %d %s" % (r, hx(rng.choice(tok.NAMES))) for r in range(m)]
            hs = HS[:2] if ctx.quick and k else HS
            cases.append(("tok%d%s" % (k, "" if net else "n"), lines + ["fault 0 %s %d %s" % (rng.choice(["ns", "plain"]), rng.randrange(12), " ".join(hs))]))
        res = run_scripts(ctx, exe, cases, timeout=600)
        for cid, lines in cases:
            ls = res.get(cid, [])
            if any(l.split()[0] in ("panic", "died") for l in ls):
                ctx.violation("a collector panics when the destination fails", {"script": lines, "output": [l[:200] for l in ls]})
            if "unstable" in ls:
                ctx.add(unstable_cases=1)
            out.append((cid, lines, ls))
    return out


def derived(ctx, rng):
    src, run_ = [], []
    ms = derive.mgroups(ctx, rng, src, run_, 8 if ctx.quick else 60, leafs=4, faults=HS)
    lines = derive.compile_gen(ctx, derive.program(src, run_), owner=False)
    if lines is None:
        log("derived groups do not compile: not looked at here")
        return []
    decl = {m.group(1): m.group(0) for m in re.finditer(r"#\[derive\(MetricGroup\)\]\n.*?struct (M\d+) \{.*?\n\}", "\n".join(src), re.S)}
    by = {}
    for l in lines:
        if l.startswith("fault "):
            by.setdefault(l.split()[1], []).append(l)
    if set(by) != set(ms):
        ctx.violation("the generated program does not survive", {"groups": sorted(set(ms) - set(by))})
    return [("derived", decl[g], ls) for g, ls in by.items()]


def c14(ctx):
    rng = random.Random(ctx.seed + 14)
    outs = derived(ctx, rng) + collectors(ctx, rng)
    n, points = histories(ctx, outs, "an output error is lost, or output is corrupted, by a collector or a derived group")
    log(n, "histories of collectors and derived groups")
    ctx.add(evaluations=n, distinct_nontrivial=points, collector_histories=n)
    ctx.coverage["rule"] += ("; the same for the process collector, the runtime collectors and derived groups, at every call of the destination")
