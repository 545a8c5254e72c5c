"""Shared by every check: building, running TLC, evidence and verdicts."""
import fcntl, json, os, re, subprocess, sys, time, shutil, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env(extra=None):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "1.85.0", "CARGO_NET_OFFLINE": "true"})
    e.update(extra or {})
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, "." + name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def limited(exe):
    """what the code under test allocates without end must not take the sandbox with it"""
    return ["sh", "-c", 'ulimit -v 8000000; exec "$0"', exe]


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.violations = []
        self.coverage = {}
        self.notes = []
        self.work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)

    def violation(self, what, replay):
        """replay: JSON-able description of the input, schedule or history that fails"""
        known = self.known(what, replay)
        if known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known), flush=True)
            return
        h = hashlib.sha1(json.dumps([what, replay], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(BUILD, "replay", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay, "seed": self.seed}, f, indent=1, default=str)
        if len(self.violations) < 5:
            log("violation:", what)
            print(json.dumps(replay, default=str)[:1500], flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.violations.append({"what": what, "replay": path})

    def known(self, what, replay):
        p = os.path.join(VERIF, "known_findings.txt")
        key = json.dumps(replay, sort_keys=True, default=str)
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
                if m and m.group(1) == self.prop and (m.group(2) in key or m.group(2) in what):
                    return m.group(3)
        return None

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.coverage.get(k), (int, float)):
                self.coverage[k] += v
            else:
                self.coverage[k] = v

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.coverage,
            "wall_s": round(time.time() - T0, 1),
            "violations": len(self.violations),
            "notes": self.notes,
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log("done:", "VIOLATED" if self.violations else "held", json.dumps(self.coverage)[:600])
        return 1 if self.violations else 0


def tlc(spec, cfg, workdir, envv=None, workers=2, timeout=600, args=(), heap="2g"):
    """Runs TLC on SPEC/spec.tla with SPEC/cfg; returns (ok, violated, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg) if not os.path.isabs(cfg) else cfg,
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
    cmd += list(args)
    cmd.append(os.path.join(SPEC, spec + ".tla") if not os.path.isabs(spec) else spec)
    try:
        r = run(cmd, timeout, env=env(envv), cwd=workdir)
    except subprocess.TimeoutExpired:
        return None, False, "TIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
    ok = "Model checking completed. No error has been found." in out or "Finished in" in out and r.returncode == 0
    violated = r.returncode in (10, 11, 12, 13) or "is violated" in out or "Deadlock reached" in out
    return ok and not violated, violated, out


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


class Tlcs:
    """Several TLC processes side by side."""

    def __init__(self, n=4):
        self.n = n

    def map(self, jobs):
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(self.n) as ex:
            return list(ex.map(lambda j: tlc(**j), jobs))


def die(msg):
    print("TOOL-ERROR: " + msg, flush=True)
    sys.exit(2)
