"""Sequential checks: cases enumerated from the specification -> scripts for harness/seq -> what the real code did
-> TLC. Nothing is judged here but panics, deaths and scripts that do not end."""
import random, struct, threading
from common import *

SEQ = os.path.join(BUILD, "seq")


def build(ctx):
    with Lock("seq"):
        r = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "seq", "Cargo.toml")],
                600, env=env({"CARGO_TARGET_DIR": SEQ}))
        if r.returncode != 0:
            sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
            raise ToolError("the sequential harness does not build")
        exe = os.path.join(ctx.work, "seq")
        shutil.copy(os.path.join(SEQ, "debug", "seq"), exe)
    log("harness built")
    return exe


def gen(ctx, what, n=0, spec="ExportGen", extra=None):
    out = os.path.join(ctx.work, "gen-%s-%s-%s.json" % (spec, what, n))
    e = {"WHAT": what, "N": str(n), "OUT": out}
    e.update(extra or {})
    ok, viol, o = tlc(spec, spec + ".cfg", ctx.work, envv=e, workers=1, timeout=300)
    if not os.path.exists(out):
        raise ToolError("%s failed:\n%s" % (spec, o[-2000:]))
    return json.load(open(out))


# ---------------------------------------------------------------- representation

def bits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def unbits(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]


def limbs(x):
    b = bits(x)
    return [b >> 48, (b >> 32) & 0xFFFF, (b >> 16) & 0xFFFF, b & 0xFFFF]


def fhex(x):
    return "%016x" % bits(x)


def hx(b):
    return bytes(b).hex() or "-"


def digits(n):
    return list(str(n).encode())


def number(tok):
    """what a number of a text document stands for (Go's ParseFloat, on what Python and Go share)"""
    t = bytes(tok)
    if not re.fullmatch(rb"[+-]?(inf|Inf|NaN|nan|[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?)", t):
        return None
    return float(t)


def tokens(doc):
    """every number a reader could find in the document"""
    d = bytes(doc)
    toks = set()
    for l in d.split(b"\n"):
        if not l.startswith(b"#") and b" " in l:
            toks.add(l.rsplit(b" ", 1)[1].strip(b"\t "))
        for m in re.finditer(rb'(?==?"([^"\\]*)")', l):
            toks.add(m.group(1))
    return table(toks)


def table(toks):
    tab = []
    for t in sorted(toks):
        v = number(t)
        if v is not None:
            tab.append({"tok": list(t), "val": limbs(v)})
    return tab


# ---------------------------------------------------------------- families

OBS = ("obs", "obsg", "obsm", "dur", "durm", "durv")


class Fam:
    """kind: counter gauge fgauge hist; rows: [(name, type, value)...]; ops: (row, op, arg)"""

    def __init__(self, kind, rep, rows, le=(), ops=(), ctor=""):
        """ctor: how the bounds are made, e.g. 3@lin args"""
        self.kind, self.rep, self.rows, self.le, self.ops, self.ctor = kind, rep, rows, list(le), list(ops), ctor

    def script(self, i):
        out = []
        for r in self.rows:
            out.append("row " + " ".join(
                "%s:%s:%s" % (hx(n), t, hx(v) if t == "s" else fhex(v) if t == "f" else v) for n, t, v in r))
        f = "fam %s %s" % (self.kind, self.rep)
        if self.kind == "hist":
            f += " " + (self.ctor or "%d %s" % (len(self.le), " ".join(fhex(x) for x in self.le)))
        out.append(f)
        for row, op, arg in self.ops:
            out.append("op %d %d %s %s" % (i, row, op, arg_text(self.kind, op, arg)))
        return out

    def json(self):
        series = {}
        for row, op, arg in self.ops:
            if row not in series:
                series[row] = {"counter": 0, "gauge": 0, "fgauge": 0.0,
                               "hist": {"raw": False, "obs": [], "sum": 0.0, "cum": [], "count": []}}[self.kind]
            if op == "inc":
                series[row] = (series[row] + arg) % 2**64
            elif op == "set":
                series[row] = arg
            elif op in OBS:
                series[row]["obs"].append(arg)
                series[row]["sum"] += arg
            elif op == "raw":
                cum, c = [], 0
                for b in arg[:-2]:
                    c += b
                    cum.append(digits(c))
                series[row] = {"raw": True, "obs": [], "sum": arg[-1], "cum": cum, "count": digits(c + arg[-2])}
        if self.rep == "one" and 0 not in series and self.kind != "absent":
            series[0] = 0 if self.kind in ("counter", "gauge") else 0.0 if self.kind == "fgauge" else {
                "raw": False, "obs": [], "sum": 0.0, "cum": [], "count": []}
        out, fl = [], set()
        for row in sorted(series):
            labels = []
            for n, t, v in (self.rows[row] if self.rep != "one" else []):
                if t == "f":
                    fl.add(n)
                labels.append([list(n), list(v) if t == "s" else limbs(v) if t == "f" else digits(v)])
            v = series[row]
            if self.kind in ("counter", "gauge"):
                out.append({"labels": labels, "v": digits(v), "d": limbs(float(v))})
            elif self.kind == "fgauge":
                out.append({"labels": labels, "v": limbs(v), "d": limbs(v)})
            else:
                out.append({"labels": labels, "d": [], "v": dict(v, obs=[limbs(x) for x in v["obs"]], sum=limbs(v["sum"]))})
        return {"kind": self.kind, "le": [limbs(x) for x in self.le], "series": out, "fl": [list(n) for n in sorted(fl)]}


def arg_text(kind, op, arg):
    if op in OBS or op == "set" and kind == "fgauge":
        return fhex(arg)
    if op == "raw":
        return ";".join([str(b) for b in arg[:-1]] + [fhex(arg[-1])])
    if op == "touch":
        return ""
    return str(arg)


# ---------------------------------------------------------------- trees

def F(fam, name, help=None, how="F"):
    """how: F the family writes itself, V its type and then one value at a time, W only the values"""
    return {"t": "F", "fam": fam + 1, "name": list(name), "help": [-1] if help is None else list(help), "how": how}


def C(a, b):
    return {"t": "C", "a": a, "b": b}


def tree_script(g):
    t = g["t"]
    if t == "F":
        return "%s %d %s %s" % (g.get("how", "F"), g["fam"] - 1, hx(g["name"]), "none" if g["help"] == [-1] else hx(g["help"]))
    if t == "Z":
        return "Z"
    if t == "N":
        return "N %s %s" % (hx(g["ns"]), tree_script(g["a"]))
    if t == "C":
        return "C %s %s" % (tree_script(g["a"]), tree_script(g["b"]))
    return "%s %s" % (t, tree_script(g["a"]))


def compose(gs):
    """up to 8 leaves as a tree of compositions"""
    while len(gs) > 1:
        gs = [C(gs[i], gs[i + 1]) if i + 1 < len(gs) else gs[i] for i in range(0, len(gs), 2)]
    return gs[0]


# ---------------------------------------------------------------- running scripts

def run_scripts(ctx, exe, cases, procs=8, timeout=300, on_death=True):
    """cases: [(id, lines)]; returns {id: [output line]}"""
    res = {}
    lk = threading.Lock()
    errs = []

    def work(part):
        todo = list(part)
        while todo:
            text = "".join("case %s\n%s\n" % (i, "\n".join(ls)) for i, ls in todo) + "case END\n"
            p = subprocess.Popen(limited(exe), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
            hung = False
            try:
                out, err = p.communicate(text.encode(), timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                hung = True
            cur, got, order = None, {}, []
            for l in out.decode(errors="replace").splitlines():
                if l.startswith("case "):
                    cur = l[5:]
                    got[cur] = []
                    order.append(cur)
                elif cur is not None:
                    got[cur].append(l)
            with lk:
                res.update({i: v for i, v in got.items() if i != "END"})
            if "END" in got and p.returncode == 0:
                return
            last = order[-1] if order else todo[0][0]
            lines = dict(todo)[last]
            if p.returncode is not None and p.returncode < 0 or hung:
                with lk:
                    res.pop(last, None)
                    errs.append((last, lines, "does not end" if hung else "dies (%s)" % p.returncode, err.decode(errors="replace")[-400:]))
                if len(errs) > 3:
                    return
                k = [i for i, _ in todo].index(last)
                todo = todo[k + 1:]
            else:
                raise ToolError("harness seq: exit %s: %s" % (p.returncode, err.decode(errors="replace")[-800:]))

    parts = [cases[i::procs] for i in range(procs)]
    fails = []

    def guard(part):
        try:
            work(part)
        except Exception as e:
            fails.append(e)

    ths = [threading.Thread(target=guard, args=(p,)) for p in parts if p]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if fails:
        raise fails[0]
    for i, lines, how, err in errs:
        ctx.violation("the process %s in case %s" % (how, i), {"case": i, "script": lines, "stderr": err})
    return res


def harness_error(ls):
    for l in ls:
        m = re.match(r"panic (\S+) (\S+)", l) or re.match(r"(col|fin) \S+ panic:(\S+)", l)
        if m:
            t = bytes.fromhex(m.group(2) if m.group(2) != "-" else "").decode(errors="replace")
            if "harness:" in t:
                raise ToolError(t)
            return t
    return None


def judge(ctx, spec, recs, what, procs=8, timeout=600, explain=None, wrap=lambda p: p, states=len, part=None):
    """TLC judges every record (a record has an id); explain: id -> what to report; states: how many there must be"""
    if not recs:
        return []
    parts = [recs[i::procs] for i in range(procs)]
    jobs = []
    parts = [p for p in parts if p]
    for n, p in enumerate(parts):
        path = os.path.join(ctx.work, "cases-%s-%d.json" % (spec, n))
        with open(path, "w") as f:
            json.dump(wrap(p), f)
        jobs.append(dict(spec=spec, cfg=spec + ".cfg", workdir=ctx.work, envv=dict({"CASES": path}, **({"PART": part} if part else {})), workers=1, timeout=timeout,
                         args=["-continue"], heap="3g"))
    bad = []
    for (ok, viol, out), p in zip(Tlcs(procs).map(jobs), parts):
        gen_, dist = tlc_stats(out)
        b = re.findall(r'<<"BAD", "([^"]*)">>', out)
        bad += b
        if not (len(p) <= dist <= states(p)) or not b and dist != states(p) or not (ok or viol) or viol and '"BAD"' not in out:
            raise ToolError("TLC on %s: %d of %d cases\n%s" % (spec, dist, len(p), out[-3000:]))
        ctx.add(states=dist, transitions=gen_ - dist)
    bad = sorted(set(bad))
    for b in bad:
        ctx.violation(what, explain(b) if explain else {"case": b})
    return bad
