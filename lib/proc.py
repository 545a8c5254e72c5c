"""C18: the process collector, on histories enumerated from ProcGen.tla: on processes of our own, and on a /proc of our own."""
from seq import *

TARGET = os.path.join(BUILD, "proc")
HELP = {"open_fds": "Number of open file descriptors.", "max_fds": "Maximum number of open file descriptors.",
        "virtual_memory_bytes": "Virtual memory size in bytes.", "resident_memory_bytes": "Resident memory size in bytes.",
        "cpu_seconds_total": "Total user and system CPU time spent in seconds.", "threads": "Number of OS threads in the process.",
        "start_time_seconds": "Start time of the process since unix epoch in seconds."}
VOCAB = [{"b": list(s.encode()), "s": s} for kv in HELP.items() for s in kv]
COMMS = [b"plain", b"a b", b") R 1 2 3 4 5", b"((x) S 9 9 (", b"new\nline", b"", b"12 34", b"\xff\xfe)", b"))", b"x) Z 0 0"]
LIMITS = """Limit                     Soft Limit           Hard Limit           Units     
Max cpu time              unlimited            unlimited            seconds   
Max file size             unlimited            unlimited            bytes     
Max data size             unlimited            unlimited            bytes     
Max stack size            8388608              unlimited            bytes     
Max core file size        0                    unlimited            bytes     
Max resident set          unlimited            unlimited            bytes     
Max processes             127000               127000               processes 
Max open files            %-20s %-20s files     
Max locked memory         8388608              8388608              bytes     
Max address space         unlimited            unlimited            bytes     
Max file locks            unlimited            unlimited            locks     
Max pending signals       127000               127000               signals   
Max msgqueue size         819200               819200               bytes     
Max nice priority         0                    0                    
Max realtime priority     0                    0                    
Max realtime timeout      unlimited            unlimited            us        
"""


def build_proc(ctx):
    with Lock("proc"):
        r = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "proc", "Cargo.toml")],
                600, env=env({"CARGO_TARGET_DIR": TARGET}))
        if r.returncode != 0:
            sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
            raise ToolError("the process harness does not build")
        exe = os.path.join(ctx.work, "proc")
        shutil.copy(os.path.join(TARGET, "debug", "proc"), exe)
    return exe


class Fake:
    """a process of a /proc of our own; only what the collector reads"""
    D = "/proc/4242"

    def __init__(self, rng):
        self.rng = rng
        self.btime = rng.choice([0, 1, 1700000000, 4102444800])
        self.ticks = rng.choice([0, 1, 99, 100, 12345])
        self.born()

    def born(self):
        r = self.rng
        self.comm = r.choice(COMMS)
        self.start = self.ticks
        self.ticks += r.choice([1, 100, 101, 12345678901])
        self.soft = "1024"
        self.state = b"S"
        self.vary()

    def vary(self):
        r = self.rng
        big = r.random() < 0.3
        self.v = {"utime": r.choice([0, 1, 99, 100, 12345, 2**62 if big else 7]), "stime": r.choice([0, 1, 50, 99, 100, 2**61 if big else 3]),
                  "threads": r.choice([1, 2, 100, 4000000 if big else 5]), "vsize": r.choice([4096, 123456789, 2**33, 2**47 - 4096, 2**62 if big else 8192]),
                  "rss": r.choice([0, 1, 1234, 2**31 + 1 if big else 7, 2**48 if big else 9])}

    def stat(self):
        v = self.v
        f = [1, 4242, 4242, 0, -1, 4194560, 105, 11, 3, 4, v["utime"], v["stime"], 17, 19, 20, 0, v["threads"], 0, self.start, v["vsize"], v["rss"],
             2**64 - 1, 5, 6, 7, 0, 0, 0, 0, 0, 0, 1, 0, 0, 17, 3, 0, 0, 0, 0, 0, 8, 9, 10, 11, 12, 13, 14, 0]
        return b"4242 (" + self.comm + b") " + self.state + b" " + b" ".join(b"%d" % x for x in f) + b"\n"

    def files(self):
        hard = self.rng.choice(["1048576", "unlimited"])
        return ["file %s/stat %s" % (self.D, hx(self.stat())), "file %s/limits %s" % (self.D, hx((LIMITS % (self.soft, hard)).encode()))]

    def boot(self):
        if self.rng.random() < 0.1:
            return ["dir /proc"]
        s = "cpu  1 2 3 4 5 6 7 0 0 0\ncpu0 1 2 3 4 5 6 7 0 0 0\nintr 5 0\nctxt 99\nbtime %d\nprocesses 12\nprocs_running 1\nprocs_blocked 0\nsoftirq 0 0\n" % self.btime
        return ["file /proc/stat %s" % hx(s.encode()), "file /proc/sys/kernel/osrelease %s" % hx(b"6.1.0-test\n")]

    def op(self, o):
        r = self.rng
        if o[0] == "change":
            if r.random() < 0.35:
                f = "%s/%s" % (self.D, r.choice(["stat", "limits"]))
                return ["rm " + f] + (["dir " + f] if r.random() < 0.5 else [])
            if r.random() < 0.3:
                self.comm = r.choice(COMMS)
            self.soft = r.choice(["1024", "0", "1", "unlimited", "9223372036854775807", "1048576"])
            self.vary()
        elif o[0] == "end":
            self.state = b"Z"
            self.v.update(vsize=0, rss=0, threads=1)
        elif o[0] == "reap":
            return ["rm " + self.D]
        elif o[0] == "reuse":
            self.born()
        else:
            return [" ".join(o)]
        return ["rm %s/stat" % self.D, "rm %s/limits" % self.D] + self.files()


def change(rng):
    op = rng.choice(["fds", "fds", "soft", "map", "touch", "burn", "threads", "comm"])
    arg = {"fds": rng.choice([0, 0, 1, 2, 7, 60, 700]), "soft": rng.choice([0, 1, 64, 1000]), "map": rng.choice([1, 100, 60000]),
           "touch": rng.choice([1, 64, 100]), "burn": rng.choice([10, 40, 300]), "threads": rng.choice([1, 3, 17]), "comm": rng.randrange(8)}[op]
    return ["cmd %s %d" % (op, arg)]


def parse(ctx, cid, lines, script):
    """the events of one case, or None"""
    ev = []
    h = lambda x: [] if x == "-" else list(bytes.fromhex(x))
    for l in lines:
        w = l.split()
        if w[0] == "make":
            ev.append({"e": "make", "col": w[1], "stat": h(w[2]), "btime": [] if w[3] == "-" else list(w[3].encode())})
        elif w[0] == "scrape":
            for x in (w[6], w[7]):
                if x.startswith("err:"):
                    ctx.violation("a scrape fails", {"case": cid, "script": script, "error": bytes.fromhex(x[4:]).decode(errors="replace")})
                    return None
            ev.append({"e": "scrape", "col": w[1], "stat": h(w[2]), "limits": h(w[3]), "fds": int(w[4]), "gone": w[5] == "1", "text": h(w[6]), "proto": h(w[7]),
                       "slack": 1 if "self" in script else 0, "optional": w[1].endswith("n")})
        elif w[0] == "panic":
            ctx.violation("the collector panics", {"case": cid, "script": script, "output": lines})
            return None
        elif w[0] == "died":
            raise ToolError("proc harness: case %s: %s" % (cid, l))
        elif w[0] in ("unstable", "noreuse"):
            ctx.add(**{w[0] + "_cases": 1})
            return ev
        elif w[0] == "nofake":
            return "nofake"
    return ev


def c18(ctx):
    rng = random.Random(ctx.seed)
    exe = build_proc(ctx)
    hist = sorted(gen(ctx, "histories", 7 if ctx.quick else 8, spec="ProcGen"))
    log("%d histories" % len(hist))
    cases, roots = [], os.path.join(ctx.work, "roots")
    for k, h in enumerate(hist if len(hist) < 2500 else rng.sample(hist, 2500 if ctx.quick else 20000)):
        f = Fake(rng)
        lines = ["fake %s/%d" % (roots, k)] + f.boot() + f.files() + ["pid 4242"]
        for o in h:
            lines += f.op(o)
        os.makedirs("%s/%d" % (roots, k))
        cases.append(("fake%d" % k, lines))
    plain = [h for h in hist if ["reuse"] not in h and any(o[0] != "scrape" and o[0] != "make" for o in h)]
    for k, h in enumerate(rng.sample(plain, min(len(plain), 150 if ctx.quick else 2000))):
        lines = ["spawn"]
        for o in h:
            lines += change(rng) if o[0] == "change" else [" ".join(o)]
            if o[0] == "scrape" and rng.random() < 0.2:
                lines.append("nobody " + o[1])
        cases.append(("real%d" % k, lines))
    for k in range(8 if ctx.quick else 40):
        cases.append(("self%d" % k, ["self", "make s%s" % (" self" if k % 2 else ""), "scrape s", "scrape s"]))
    for k in range(6 if ctx.quick else 20):
        me = ["self", "make %s self", "scrape %s"]
        lines = [x % "s" if "%" in x else x for x in (me if k % 3 else me[:1])]
        for c in "tu"[:1 + k % 2]:
            lines += ["fork"] + [x % c if "%" in x else x for x in me]
        cases.append(("fork%d" % k, lines))
    reuse = [h for h in hist if h.count(["reuse"]) == 1]
    late = []
    for k, h in enumerate(rng.sample(reuse, 2 if ctx.quick else 12)):
        lines = ["spawn"]
        for o in h:
            lines += change(rng) if o[0] == "change" else [" ".join(o)]
        late.append(("reuse%d" % k, lines))
    # a pid is used again only by making every other one: alone, so that nobody else takes it
    res = run_scripts(ctx, exe, cases, timeout=600)
    log("ran", len(cases), "histories")
    res.update(run_scripts(ctx, exe, late, procs=1, timeout=600))
    recs, by = [], {}
    clk, page = os.sysconf("SC_CLK_TCK"), os.sysconf("SC_PAGE_SIZE")
    nofake = 0
    for cid, script in cases + late:
        if cid not in res:
            continue
        ev = parse(ctx, cid, res[cid], script)
        if ev == "nofake":
            nofake += 1
        elif ev:
            toks = set()
            for e in ev:
                if e["e"] == "scrape":
                    toks |= {bytes(e["text"]).split(b" ")[-1]} | {l.rsplit(b" ", 1)[1] for l in bytes(e["text"]).split(b"\n") if b" " in l and l[:1] != b"#"}
            by[cid] = (script, ev)
            recs.append({"id": cid, "const": {"clk": clk, "page": page}, "vocab": VOCAB, "tab": table(toks), "events": ev})
    if nofake:
        log("no user namespaces here:", nofake, "histories not run")

    def explain(b):
        cid, j = b.split("@")
        script, ev = by[cid]
        e = ev[int(j) - 1]
        made = [x for x in ev[:int(j) - 1] if x["e"] == "make" and x["col"] == e.get("col")][-1]
        t = lambda x: bytes(x).decode(errors="replace")
        return {"script": script, "scrape": int(j), "stat when created": t(made["stat"]), "boot time": t(made["btime"]), "stat now": t(e["stat"]),
                "limits now": [l for l in t(e["limits"]).split("\n") if "open" in l], "descriptors": e["fds"], "document": t(e["text"]), "protobuf": bytes(e["proto"]).hex()}

    judge(ctx, "ProcTrace", recs, "a scrape does not say what the system says about the process", explain=explain,
          states=lambda p: sum(len(c["events"]) for c in p))
    n = sum(1 for r in recs for e in r["events"] if e["e"] == "scrape")
    ctx.add(evaluations=n, traces_validated_against_impl=len(recs), histories_enumerated=len(hist), fake_histories=sum(1 for c in cases if c[0][:4] == "fake") - nofake, real_histories=sum(1 for c in cases + late if c[0][:4] != "fake"),
            distinct_nontrivial=len({(bytes(e["text"])) for r in recs for e in r["events"] if e["e"] == "scrape" and e["text"]}))
    ctx.coverage["rule"] = ("every history of change, end, reap, reuse, make and scrape up to the stated length, on a /proc of our own with missing, unreadable and "
                            "extreme files, a sample of them on real processes (descriptors, limits, memory, threads, CPU, names, zombies, pids used again, "
                            "an unprivileged reader, the collecting process itself); non-trivial: distinct documents that are not empty")
    last = [(r["id"], max((k for k, e in enumerate(r["events"], 1) if e["e"] == "scrape"), default=0)) for r in recs]
    last = [x for x in last if x[1]]
    ctx.coverage["samples"] = [explain("%s@%d" % x) for x in last[::max(1, len(last) // 4)]][:4]
    shutil.rmtree(roots, ignore_errors=True)
