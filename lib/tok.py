"""C19: the runtime collectors, on histories enumerated from TokGen.tla and real runtimes."""
from seq import *

TARGET = os.path.join(BUILD, "tok")
HELP = {
    "threads": "number of threads used by the runtime", "active_tasks": "number of active tasks spawned in the runtime",
    "queued_tasks": "number of tasks currently in a queue", "scheduled_tasks_total": "total number of tasks scheduled into the runtime",
    "budget_forced_yield_count": "number of tasks forced to yield after exhausting their budget",
    "worker_mean_poll_time_seconds": "estimated weighted moving average of the poll time for this worker",
    "worker_noop_count": "number of times the given worker thread woke up with no work",
    "worker_park_count": "number of times the given worker thread has parked",
    "worker_steal_count": "number of tasks the given worker thread has stolen",
    "worker_steal_operations_count": "number of times the given worker thread has attempted to steal tasks",
    "worker_poll_time_seconds": "time this runtime thread has spent polling tasks",
    "registered_fds_total": "total number of file descriptors that have been registered in the runtime",
    "deregistered_fds_total": "total number of file descriptors that have been deregistered from the runtime",
    "io_ready_events_total": "total number of ready events the runtime's IO driver has processed"}
VOCAB = [{"b": list(s.encode()), "s": s} for kv in HELP.items() for s in kv]
NAMES = [b"a", b"b", b"main", b"", b'q"u\\o\nte', "\u00e9".encode(), b"worker", b"a"]
WORKS = ["tasks", "inner", "pend", "slow", "yields", "block", "idle", "stall", "free", "io", "close"]


def build_tok(ctx, net=True):
    with Lock("tok"):
        e = env({"CARGO_TARGET_DIR": TARGET})
        e.pop("RUSTFLAGS", None)
        r = run(["cargo", "build", "--offline", "--quiet"] + ([] if net else ["--no-default-features"]), 600, env=e, cwd=os.path.join(HARNESS, "tok"))
        if r.returncode != 0:
            sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
            raise ToolError("the runtime harness does not build")
        exe = os.path.join(ctx.work, "tok" if net else "toknonet")
        shutil.copy(os.path.join(TARGET, "debug", "tok"), exe)
    return exe


def new_rt(rng):
    if rng.random() < 0.35:
        k = "cur 1"
    else:
        k = "multi %d" % rng.choice([1, 2, 3, 4, 5, 12] if rng.random() < 0.5 else [2, 3, 4])
    h = "-" if rng.random() < 0.3 else "%s:%d:%d" % (rng.choice(["lin", "log"]), rng.choice([2, 3, 5, 10]), rng.choice([1, 10, 100, 250]))
    return "rt %s %s %s %d" % (k, h, rng.choice(["io", "-"]), rng.choice([1, 3, 20]))


def work(rng, r):
    w = rng.choice(WORKS)
    n = {"tasks": [1, 7, 40], "inner": [1, 30, 600], "pend": [1, 3, 9], "slow": [3, 5], "yields": [1, 4], "block": [1, 2, 7], "idle": [1, 2, 3],
         "stall": [0, 1, 5, 13], "free": [0], "io": [1, 2, 5, 8], "close": [0]}[w]
    return "work %d %s %d" % (r, w, rng.choice(n))


def script(rng, h):
    """one history; sometimes on a collector of one runtime"""
    lines, single = [], rng.random() < 0.15 and sum(1 for o, _ in h if o == "add") == 1
    if not single:
        lines.append("named" + (" dflt" if rng.random() < 0.3 else ""))
    n = 0
    for o, r in h:
        if o == "rt":
            lines.append(new_rt(rng))
        elif o == "work":
            lines += [work(rng, r) for _ in range(rng.choice([1, 2, 4]))]
        elif o == "shut":
            lines.append("work %d shut 0" % r)
        elif o == "scrape":
            if not single or n:
                lines.append("scrape 0 " + ("ns" if rng.random() < 0.3 else "plain"))
        elif o == "wreck":
            # counted writes: a document of one runtime has about a hundred
            if not single and rng.random() < 0.4:
                lines.append("badadd 0 0 %s" % rng.choice(["current", "name"]))
            else:
                lines.append("wreck 0 %s %d" % (rng.choice(["panic", "fail"]), rng.choice([1, 2, 5, 30, 100, 300])))
        elif single:
            n += 1
            k = rng.random()
            lines.append("current %d" % r if k < 0.3 else "single %d %s" % (r, "none" if k < 0.6 else hx(rng.choice(NAMES))))
        elif rng.random() < 0.15:
            lines.append("crowd 0 %d %s %d %s" % (r, hx(rng.choice(NAMES)), rng.choice([1, 3, 20, 60]), rng.choice(["text", "proto"])))
            lines.append("add 0 %d %s" % (r, hx(rng.choice(NAMES))))
        elif rng.random() < 0.2:
            lines.append("during 0 %d %s %d %s" % (r, hx(rng.choice(NAMES)), rng.choice([1, 3, 20, 60, 200]), rng.choice(["text", "proto"])))
        else:
            lines.append("%s 0 %d %s" % ("addc" if rng.random() < 0.4 else "add", r, hx(rng.choice(NAMES))))
    return lines


def fl(s):
    return limbs(unbits(int(s, 16)))


def runtime(name, r):
    d = lambda x: list(x.encode())
    return {"named": name != "none", "name": list(bytes.fromhex(name[1:].replace("-", ""))) if name != "none" else [],
            "hist": r["hist"], "blocking": r["blocking"], "idle": r["idle"], "le": [fl(x) for x in r["le"]], "io": [d(x) for x in r["io"]],
            "active": d(r["active"]), "bq": d(r["bq"]), "inj": d(r["inj"]), "remote": d(r["remote"]), "yields": d(r["yields"]),
            "w": [{k: fl(v) if k in ("mean", "busy") else [d(x) for x in v] if k == "buckets" else d(v) for k, v in w.items()} for w in r["w"]]}


def c19(ctx):
    rng = random.Random(ctx.seed)
    exes = [(build_tok(ctx, net=False), False), (build_tok(ctx), True)]
    hist = sorted(gen(ctx, "histories", 6 if ctx.quick else 7, spec="TokGen"))
    log("%d histories" % len(hist))
    # long ones as well: chains of enumerated ones would be too big to enumerate
    n = 500 if ctx.quick else 6000
    pick = rng.sample(hist, min(n, len(hist)))
    rich = [h for h in hist if {"add", "work"} <= {o for o, _ in h}]
    pick += rng.sample(rich, min(n // 2, len(rich)))
    cases = [("t%d" % k, script(rng, h)) for k, h in enumerate(pick)]
    for k in range(40 if ctx.quick else 600):
        # every runtime busy in its own way
        m = rng.choice([1, 2, 3, 5])
        ls = ["named"]
        for r in range(m):
            ls += [new_rt(rng), "%s 0 %d %s" % (rng.choice(["add", "addc"]), r, hx(b"r%d" % r))]
        for _ in range(rng.choice([3, 8, 15])):
            ls += [work(rng, rng.randrange(m))] + (["scrape 0 plain"] if rng.random() < 0.3 else [])
        cases.append(("b%d" % k, ls + ["scrape 0 plain"]))
    for k in range(1 if ctx.quick else 8):
        # many of everything: workers, buckets of the poll histogram, registrations
        a, b, n = rng.randrange(18, 25) + 12 * k, rng.randrange(24, 40) + 40 * k, rng.randrange(17, 22) + 10 * k
        cases.append(("w%d" % k, ["named", "rt multi %d - - 20" % a, "add 0 0 " + hx(b"wide"), "work 0 tasks 40", "work 0 stall 13", "scrape 0 plain"]))
        cases.append(("h%d" % k, ["named", "rt multi 2 lin:%d:100 - 20" % b, "rt cur 1 log:%d:1 - 20" % min(b + 20, 52), "rt cur 1 lin:%d:%d - 20" % (3 + k, rng.choice([10**6, 7 * 10**5])),
                                  "add 0 0 " + hx(b"fine"), "add 0 1 " + hx(b"log"), "add 0 2 " + hx(b"coarse"), "work 2 slow 1",
                                  "work 0 slow 5", "work 1 slow 5", "work 0 tasks 40", "scrape 0 plain"]))
        cases.append(("m%d" % k, ["named", "rt cur 1 - io 20", "rt cur 1 lin:2:10 - 20", "work 0 tasks 7", "work 1 slow 3"]
                      + ["add 0 %d %s" % (j % 2, hx(b"r%d" % j)) for j in range(n)] + ["scrape 0 plain"]))
    recs, src = [], {}
    total = unstable = 0
    words, live = set(), set()
    for exe, net in exes:
        mine = cases if net else cases[:: 12]
        res = run_scripts(ctx, exe, mine, timeout=600)
        log("ran", len(mine), "histories")
        for cid, lines in mine:
            if cid not in res:
                continue
            if any(l.startswith("harness:") for l in res[cid]):
                raise ToolError("harness tok: %s" % res[cid])
            for j, l in enumerate(res[cid]):
                w = l.split(" ", 5)
                if w[0] == "panic":
                    ctx.violation("a scrape panics", {"case": cid, "script": lines})
                elif w[0] == "unstable":
                    unstable += 1
                elif w[0] in ("scrape", "crowd"):
                    names = [] if w[2] == "x" else w[2].split(",")
                    rts = [runtime(a, b) for a, b in zip(names, json.loads(w[5]))]
                    text, proto = (b"" if x == "-" else bytes.fromhex(x) for x in w[3:5])
                    toks = {bytes(t["tok"]) for t in tokens(text)} | {bytes(x) for r in rts for x in
                            [r["active"], r["bq"], r["inj"], r["remote"], r["yields"]] + r["io"] + [str(r["idle"]).encode(), str(len(r["w"])).encode(),
                            str(max(0, r["blocking"] - r["idle"])).encode()] + [v for q in r["w"] for k, v in q.items() if k not in ("mean", "busy", "buckets")]}
                    # (the text of a crowd may have been written before the runtime was there)
                    toks |= {b"%d" % sum(int(bytes(x)) for x in q["buckets"][:n]) for r in rts for q in r["w"] for n in range(len(q["buckets"]) + 1)}
                    toks |= {proto[p + 2:p + 2 + proto[p + 1]] for p in range(len(proto) - 1) if proto[p] == 0x12 and proto[p + 1] < 32}
                    base = {"vocab": VOCAB, "net": net, "ns": list(b"tokio_") if w[1] == "ns" else [], "rts": rts, "opt": w[0] == "crowd", "tab": table(toks)}
                    for k, d in (("text", text), ("proto", proto)):
                        rid = "%s%s/%d/%s" % (cid, "" if net else "n", j, k)
                        src[rid] = {"script": lines, "scrape": j, "net": net, "reported": w[2] + " " + w[5], "document": d.decode(errors="backslashreplace")}
                        recs.append(dict(base, id=rid, k=k, text=list(d) if k == "text" else [], proto=list(d) if k == "proto" else []))
                        total += 1
                    for r in rts:
                        live |= {k for k in ("active", "bq", "inj", "remote", "yields") if r[k] != [48]} | {"io%d" % q for q, x in enumerate(r["io"]) if x != [48]}
                        live |= {k for q in r["w"] for k in q if q[k] not in ([48], [0, 0, 0, 0], [])} | {k for k in ("idle", "blocking") if r[k]}
    ctx.add(documents=total, traces_validated_against_impl=total, unstable_scrapes=unstable, histories_enumerated=len(hist),
            distinct_nontrivial=sum(1 for r in recs if r["rts"]), evaluations=total)
    missing = set("active bq inj remote yields io0 io1 io2 depth local over mean noop park steal ops polls busy buckets idle blocking".split()) - live
    if missing:
        log("never other than 0:", " ".join(sorted(missing)))
    ctx.coverage["quantities seen above 0"] = sorted(live)
    ctx.coverage["rule"] = ("histories of starting, working, registering, shutting down and scraping up to the stated length (a sample when there are more), on real "
                            "runtimes of both flavours with random configurations and work; non-trivial: a document with a runtime in it")
    ctx.coverage["samples"] = [src[r["id"]]["document"][:300] for r in recs[:: max(1, len(recs) // 3)]][:3]
    # documents are long: the same report is judged once
    judge(ctx, "TokTrace", recs, "the families do not say what the runtimes report about themselves", explain=lambda b: src[b], timeout=800)
