"""Concurrency checks: scenarios -> real code under the controlled scheduler -> histories -> TLC."""
import json, os, subprocess, threading, time
from common import *

CONC = os.path.join(BUILD, "conc")


def build(ctx):
    with Lock("conc"):
        stamp = os.path.join(CONC, "stamp")
        h = hashlib.sha1()
        for d, _, fs in sorted(os.walk(os.path.join(HARNESS, "vstd"))):
            for f in sorted(fs):
                h.update(open(os.path.join(d, f), "rb").read())
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            shutil.rmtree(CONC, ignore_errors=True)
        os.makedirs(CONC, exist_ok=True)
        r = run([os.path.join(HARNESS, "build_conc.sh"), CONC], 600, env=env())
        if r.returncode != 0:
            sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
            raise ToolError("the concurrency harness does not build")
        open(stamp, "w").write(h.hexdigest())
        exe = os.path.join(ctx.work, "conc")
        shutil.copy(os.path.join(CONC, "target", "debug", "conc"), exe)
    log("harness built")
    return exe


def run_scenarios(ctx, exe, scens, secs, procs=6):
    """Runs the scenario lines; returns (histories, summaries). A history is
    (scenario line, dict, path, count, panics)."""
    by_id = {}
    for s in scens:
        i = dict(kv.split("=", 1) for kv in s.split("|")[0].split())["id"]
        assert i not in by_id, i
        by_id[i] = s
    chunks = [scens[i::procs] for i in range(procs)]
    hist, summ, skipped, errs = [], [], [], []
    lk = threading.Lock()

    def work(lines):
        todo = list(lines)
        t0 = time.time()
        while todo:
            left = max(2, int(secs - (time.time() - t0)))
            p = subprocess.Popen(limited(exe), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=env({"CONC_SECS": str(left)}))
            try:
                out, err = p.communicate("\n".join(todo).encode(), timeout=secs + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                errs.append("time-out of the harness")
            done, ended = set(), False
            for l in out.decode(errors="replace").splitlines():
                if l.startswith("H "):
                    j, path, cnt, pan = (l[2:].split("\t") + ["", "", ""])[:4]
                    d = json.loads(j)
                    with lk:
                        hist.append((by_id[d["scen"]], d, path, int(cnt), pan))
                elif l.startswith("D "):
                    _, i, ex, di, exh, bad = l.split()
                    done.add(i)
                    with lk:
                        summ.append((i, int(ex), int(di), exh == "1", bad == "1"))
                elif l.startswith("SKIP "):
                    with lk:
                        skipped.append(l[5:])
                elif l.startswith("END "):
                    ended = True
                    ctx.add(scheduling_steps=int(l.split()[1]))
            if ended:
                return
            rest = [s for s in todo if dict(kv.split("=", 1) for kv in s.split("|")[0].split())["id"] not in done]
            if len(rest) == len(todo):
                # nothing came of the first one: the process died in it
                with lk:
                    errs.append((rest[0], p.returncode, err.decode(errors="replace")[-500:]))
                    if len(errs) > 3:
                        return
                rest = rest[1:]
            todo = rest

    ths = [threading.Thread(target=work, args=(c,)) for c in chunks if c]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return hist, summ, skipped, errs


def mod(m):
    return 0 if m % 2 else 2**64 // (m & -m)


def context(s, d):
    o = dict(kv.split("=", 1) for kv in s.split("|")[0].split())
    rep = o.get("rep", "sparse").split(":")[0]
    nl = int(o.get("nl", 2))
    nt = 1 + sum(1 for p in s.split("|")[1:] if p.strip().startswith("T"))
    one = rep == "one"
    return {
        "kind": o.get("kind", "counter"),
        "nl": 1 if one else nl,
        "nt": nt,
        "dense": rep in ("dense", "dense0", "auto", "one"),
        "bound": 1 if one else (-1 if rep == "unbounded" else nl),
        "le": [4, 8],
        # numbers are scaled by `mul`; with an even factor they are known modulo a power of two
        "mod": mod(int(o.get("mul", 1))),
        "all": rep in ("dense0", "one"),
    }


def judge(ctx, hist, procs=4, spec="RegistryTrace", timeout=600):
    """TLC decides which histories Registry explains. Returns the ones it does not."""
    groups = {}
    for h in hist:
        groups.setdefault(json.dumps(context(h[0], h[1])), []).append(h)
    # one forest per group; groups are spread over the processes
    forests = []
    for cxj, hs in groups.items():
        forests.append((cxj, hs, sum(len(h[1]["ev"]) for h in hs)))
    forests.sort(key=lambda f: -f[2])
    # split large groups
    parts = [[] for _ in range(procs)]
    load = [0] * procs
    for cxj, hs, w in forests:
        k = max(1, min(procs, w // 4000))
        for i in range(k):
            sub = sorted(hs, key=lambda h: json.dumps(h[1]["ev"]))
            n = len(sub)
            sub = sub[i * n // k:(i + 1) * n // k]
            j = load.index(min(load))
            parts[j].append((cxj, sub))
            load[j] += sum(len(h[1]["ev"]) for h in sub)
    jobs, metas = [], []
    for n, part in enumerate(parts):
        if not part:
            continue
        nodes, owner, roots = [], [], []
        for cxj, hs in part:
            r = dict(json.loads(cxj))
            r["kids"] = []
            index = {}
            for h in hs:
                cur = 0
                kids = r["kids"]
                for e in h[1]["ev"]:
                    key = (cur, json.dumps(e, sort_keys=True))
                    if key not in index:
                        nodes.append(dict(e, kids=[]))
                        owner.append(h)
                        index[key] = len(nodes)
                        kids.append(len(nodes))
                    cur = index[key]
                    kids = nodes[cur - 1]["kids"]
            roots.append(r)
        path = os.path.join(ctx.work, "trace-%d.json" % n)
        with open(path, "w") as f:
            json.dump({"roots": roots, "nodes": nodes}, f)
        ctx.add(trace_tree_nodes=len(nodes))
        jobs.append(dict(spec=spec, cfg=spec + ".cfg", workdir=ctx.work, envv={"TRACE": path}, workers=2, timeout=timeout))
        metas.append((nodes, owner))
    bad = []
    for (ok, viol, out), (nodes, owner) in zip(Tlcs(procs).map(jobs), metas):
        gen, dist = tlc_stats(out)
        ctx.add(states=dist, transitions=gen)
        if viol:
            ns = re.findall(r"node = (\d+)", out)
            n = int(ns[-1])
            bad.append((owner[n - 1], nodes[n - 1]))
        elif not ok:
            raise ToolError("TLC failed on the trace specification:\n" + out[-3000:])
        elif dist < len(nodes):
            raise ToolError("TLC visited %d states for %d trace nodes" % (dist, len(nodes)))
    return bad


def explore(ctx, scens, secs, judge_timeout=600):
    exe = build(ctx)
    hist, summ, skipped, errs = run_scenarios(ctx, exe, scens, secs)
    for e in errs:
        if isinstance(e, tuple) and e[1] is not None and e[1] < 0:
            # killed by a signal: memory was corrupted by the code under test
            ctx.violation("the process dies (%s) in a scenario" % e[1], {"scenario": e[0], "stderr": e[2]})
        else:
            raise ToolError("harness: %r" % (e,))
    ctx.add(scenarios=len(summ), scenarios_exhausted=sum(1 for s in summ if s[3]),
            executions=sum(s[1] for s in summ), distinct_histories=len(hist), scenarios_skipped=len(skipped))
    ctx.add(traces_validated_against_impl=len(hist))
    if hist:
        h = max(hist[:200], key=lambda h: len(h[1]["ev"]))
        ctx.coverage["samples"] = [{"scenario": h[0], "path": h[2], "history": h[1]["ev"]}]
    log("explored", {k: v for k, v in ctx.coverage.items() if k != "samples"})
    if not hist and not ctx.violations:
        raise ToolError("no history was recorded")
    for (s, d, path, cnt, pan), node in judge(ctx, hist, timeout=judge_timeout):
        what = "no configuration of Registry explains this history"
        if any(e["k"] == "x" for e in d["ev"]):
            what = "the execution does not end (%s)" % d["ev"][-1]["op"]
        elif pan:
            what += " (panic: %s)" % pan
        ctx.violation(what, {"scenario": s, "path": path, "unexplained_event": node, "history": d["ev"]})
    return hist


# ---------------------------------------------------------------- scenarios from the specification

def plan(ctx, prop):
    out = os.path.join(ctx.work, "plan.json")
    ok, viol, o = tlc("ScenGen", "ScenGen.cfg", ctx.work, envv={"PROP": prop, "OUT": out}, workers=1, timeout=120)
    if not os.path.exists(out):
        raise ToolError("ScenGen failed:\n" + o[-2000:])
    return json.load(open(out))


def ops(p):
    return ", ".join("%s %d %d" % (o["op"], o["l"], o["x"]) for o in p)


MULS = [0x9E3779B97F4A7C15, 2**63 + 1, 2**64 - 1, 2**62 - 1, 2**63, 2**63, 3 * 2**61, 2**60]
PATHS = {"counter": ["", "@g", "@x", "@f"], "gauge": ["", "@g", "@x", "@f"], "fgauge": ["", "@g", "@x", "@f"],
         "hist": ["", "@f", "@g", "@x", "@fd", "@gd", "@xd", "@fs", "@gs", "@xs", "@gi", "@xi"]}


def fine(rng, kind, ops):
    """numbers that are not quarters: fractions of nanoseconds' size, and with more digits than a short float holds"""
    big = [abs(o["x"]) for o in ops if abs(o["x"]) not in (1900000000, 2000000000)]
    if kind in ("counter", "gauge") or any(o["op"] == "upd1" for o in ops) or max(big + [0]) > 1 << 16:
        return ""
    return " fmul=%d" % rng.choice([1, 3, 2**25 + 1, 2**24 - 1])


def sequential(ctx, quick, thorough):
    """C09: histories of one thread, by every access path, on every representation and constructor"""
    import random
    rng = random.Random(ctx.seed)
    res, total = [], 0
    for f in plan(ctx, "C09"):
        th = f["threads"]
        th.sort(key=lambda p: (len(p), json.dumps(p)))
        variants = [(k, r) for k in f["kinds"] for r in f["reps"]]
        total += len(th) * len(variants)
        short = [p for p in th if len(p) <= 2]
        count = quick if ctx.quick else thorough
        todo = [(k, r, p) for p in short for k, r in variants]
        if ctx.quick:
            todo = rng.sample(todo, min(len(todo), count))
        while len(todo) < 2 * count:
            k, r = rng.choice(variants)
            todo.append((k, r, rng.choice(th)))
        while len(todo) < 3 * count:
            k, r = rng.choice(variants)
            todo.append((k, r, rng.choice(th) + rng.choice(th) + rng.choice(th)))
        # many series, so that tables grow: the same units spread over more labels
        wide = []
        for _ in range(count // 4):
            k, r = rng.choice([v for v in variants if not v[1].startswith("one")])
            n = rng.choice([6, 12, 20])
            p = []
            for _ in range(rng.randrange(n // 2, 2 * n)):
                l = rng.randrange(n)
                p += [dict(o, l=l) if o["op"] not in ("scrape", "scrapey", "card") else o for o in rng.choice(f["wide"])]
                if len(p) > n // 2 and rng.random() < 0.1:
                    # most of them leave at once, so that tables may shrink
                    keep = rng.sample(range(n), rng.choice([0, 1, 2]))
                    p += [{"op": "rem", "l": q, "x": 0} for q in rng.sample(range(n), n) if q not in keep]
            wide.append((k, r, p, n))
        for k, r, p, n in [x + (2,) for x in todo] + wide:
            m = 1 if k not in ("counter", "gauge") or rng.random() < 0.4 else rng.choice(MULS)
            line, held = [], False
            for o in p:
                op, via = o["op"], ""
                if m != 1 and op == "upd1":
                    op = "upd"
                if op in ("upd", "upd1", "sub", "set") and not held:
                    ok = PATHS[k]
                    if o["x"] < 0 or o["x"] > 10**9:
                        ok = [q for q in ok if len(q) < 3 or q[2] == "i"]
                    if ctx.quick or rng.random() < 0.9:
                        via = rng.choice(ok)
                    if via and op == "upd1":
                        op = "upd"  # by one, through the methods of that path that take no amount
                elif op == "touch" and not held:
                    via = rng.choice(["", "@g", "@x"])
                held = op in ("acq", "gadd", "gread", "tstart", "adv")
                line.append("%s%s %d %d" % (op, via, 0 if r.startswith("one") else o["l"], o["x"]))
            res.append("id=%s%d kind=%s rep=%s nl=%d hash=%s mul=%d%s | S %s | F %s" % (
                f["tag"], len(res), k, r, 1 if r.startswith("one") else n, rng.choice(f["hashes"]), m, fine(rng, k, p) if rng.random() < 0.4 else "", ", ".join(line),
                ", ".join("%s 0 0" % o["op"] if r.startswith("one") else "%s %d 0" % (o["op"], o["l"]) for o in f["fin"])))
    ctx.add(histories_in_plan=total)
    return res


def c09(ctx):
    scens = sequential(ctx, 1500, 20000)
    seen = {s.split(" ", 1)[1] for s in scens}
    hist = explore(ctx, scens, 120 if ctx.quick else 900)
    ctx.add(distinct_nontrivial=len(seen), evaluations=len(hist))


def scenarios(ctx, prop, budget, spur=0):
    """budget: (pairs, triples, random) numbers of scenarios"""
    import random
    rng = random.Random(ctx.seed * 1000003 + sum(map(ord, prop)))
    res = []
    fams = plan(ctx, prop)
    total_pairs = 0
    for f in fams:
        th = f["threads"]
        # single units first, in all variants
        variants = [(k, r, h, s) for k in f["kinds"] for r in f["reps"] for h in f["hashes"] for s in f["setups"]]
        rng.shuffle(variants)
        pairs = [(i, j) for i in range(len(th)) for j in range(i, len(th))]
        reads = {"scrape", "scrapey", "card"}
        pairs = [p for p in pairs if any(o["op"] not in reads for q in p for o in th[q])]
        total_pairs += len(pairs) * len(variants)
        units = [i for i in range(len(th)) if len(th[i]) == 1 or th[i][0]["op"] in ("acq", "tstart") and
                 sum(o["op"] in ("acq", "tstart") for o in th[i]) == 1 and
                 len([o for o in th[i] if o["op"] not in ("acq", "tstart", "gadd", "gread", "rel", "gfin", "adv", "tobs", "tdrop", "tobsx", "tpanic", "tforget")]) == 0]
        n_pairs, n_tri, n_rand = [max(1, b // len(fams)) for b in budget]
        core = [(i, j) for i in units for j in units if i <= j and (i, j) in set(pairs)]
        rest = [p for p in pairs if p not in set(core)]
        rng.shuffle(rest)
        rng.shuffle(core)
        chosen = (core + rest)
        out = []
        v = 0
        n = 0
        # every core pair in a few variants, then others
        while n < n_pairs and chosen:
            p = chosen[n % len(chosen)] if n < len(chosen) else rng.choice(chosen)
            k, r, h, s = variants[v % len(variants)]
            v += 1
            if n >= len(core) and rng.random() < 0.3 and core:
                p = rng.choice(core)
            out.append((k, r, h, s, [th[p[0]], th[p[1]]], "mode=dfs pb=3 spur=%d max=2500" % spur))
            n += 1
        short = [t for t in th if len(t) <= 2] or th
        for _ in range(n_tri):
            k, r, h, s = rng.choice(variants)
            ts = [rng.choice([th[u] for u in units] + short[:0]), rng.choice(short), rng.choice(short)]
            out.append((k, r, h, s, ts, "mode=dfs pb=2 spur=%d max=3000" % min(spur, 1)))
        for _ in range(n_rand):
            k, r, h, s = rng.choice(variants)
            ts = [rng.choice(th) + rng.choice(th) for _ in range(rng.choice([2, 3, 3, 4]))]
            out.append((k, r, h, s, ts, "mode=rand max=250 spur=%d seed=%d" % (spur, rng.randrange(1 << 30))))
        # storms: one thread whose every step is followed by a whole call of another, for long; weak exchanges that
        # fail many times in a row. Once per unit, with more variants and rivals in the thorough tier
        steady = [u for u in units if all(o["op"] not in reads for o in th[u])] or units
        alive = [u for u in steady if all(o["op"] not in ("tforget", "tpanic", "rem") for o in th[u])] or steady
        for u in steady + [rng.choice(th) for _ in range(0 if ctx.quick else 4 * len(steady))]:
            u = u if isinstance(u, int) else th.index(u)
            for gap, many, sp in [(1, 100, 0), (2, 40, 5), (0, 20, 150)] + ([] if ctx.quick else [(1, 200, 0), (3, 60, 300), (0, 30, 600), (0, 60, 40)]):
                k, r, h, s = rng.choice(variants)
                rival = []
                pair = [rng.choice(alive), rng.choice(steady)]
                while len(rival) < many:
                    rival += th[pair[rng.random() < 0.15]]
                out.append((k, r, h, s, [th[u], rival], "mode=starve gap=%d spur=%d steps=20000 seed=%d" % (gap, sp, rng.randrange(1 << 30))))
        for (k, r, h, s, ts, m) in out:
            i = len(res)
            if prop == "C01" and rng.random() < 0.35:
                # all 64 bits, wrapping
                m += " mul=%d" % rng.choice(MULS)
                ts = [[dict(o, op="upd" if o["op"] == "upd1" else o["op"]) for o in t] for t in ts]
            if rng.random() < 0.4:
                m += fine(rng, k, s + sum(ts, []))
            nl = 1 + max([1] + [o["l"] for t in [s] + ts for o in t])
            res.append("id=%s%d kind=%s rep=%s nl=%d hash=%s wp=%d secs=20 %s | S %s %s | F %s" % (
                f["tag"], i, k, r, nl, h, rng.randrange(2), m, ops(s), "".join("| T %s " % ops(t) for t in ts), ops(f["fin"])))
    ctx.add(program_pairs_in_plan=total_pairs)
    return res
