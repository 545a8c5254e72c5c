"""C04: builders of bucket bounds, and the buckets observations land in."""
import math
from fractions import Fraction
from seq import *
import export


def val(x):
    return math.ldexp(x["m"], x["e"])


def script(c):
    if c["ctor"] == "with":
        return "with", ["%04x%04x%04x%04x" % tuple(x) for x in c["l"]]
    if "near" in c:
        return c["ctor"], [fhex(c["x"]), fhex(c["y"])]
    return c["ctor"], [fhex(val(c["a"])), fhex(val(c["b"]))]


def floats(ls):
    return [unbits(sum(x << 16 * (3 - k) for k, x in enumerate(l))) for l in ls]


def neighbours(x):
    if x != x or math.isinf(x):
        return [x]
    return [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf)]


def durations(rng, le):
    """Seconds whose value in nanoseconds is exact (multiples of 1/512 s), at and around the bounds, tiny to huge; and below a second anything."""
    out = [0.0, 0.5, 1.0, 1.25, 1024.0, 2.0**60, rng.randrange(1 << 34) / 512.0, (rng.randrange(1 << 20) * 2 + 1) / 512.0, rng.randrange(1, 10**9) / 1e9]
    for x in le[:8]:
        if 0 <= x < 2.0**40 and x * 512 == int(x * 512):
            out += [x, x + 1 / 512] + ([x - 1 / 512] if x else [])
        elif 0 < x < 0.99:
            n = int(x * 1e9)
            out += [n / 1e9, (n + 1) / 1e9]
    return out


def rounded(q):
    try:
        return float(q)
    except OverflowError:
        return math.inf if q > 0 else -math.inf


def near(c):
    """The documented bounds of inexact arguments, rounded to the nearest float; the first one is the start itself."""
    x, y, n = c["x"], c["y"], c["n"]
    if math.isfinite(x) and math.isfinite(y):
        a, b = Fraction(x), Fraction(y)
        l = [rounded(a + b * i if c["ctor"] == "lin" else a * b**i) for i in range(n)]
    else:
        l = [x] + [x + y if c["ctor"] == "lin" else x * y] * (n - 1)
    return [limbs(v) for v in l[:n]]


# arguments from the far ends of the floats: bounds that overflow, or whose distance from the first one does
FAR = ([("lin", x, y) for x, y in [(math.nan, 1.0), (-math.inf, math.inf), (0.0, math.inf), (-1e308, 1e308), (-1.7e308, 6e307), (1e300, 1e292), (1e20, 1.0), (-1e20, 1e4),
                                   (-math.inf, 1.0), (math.inf, 1.0), (1e308, 1.5e308), (-1.7976931348623157e308, 1.7976931348623157e308), (5e-324, 5e-324)]]
       + [("exp", x, y) for x, y in [(1e-300, 1e100), (1e-300, 1e200), (1e-320, 1e300), (5e-324, 2.0), (5e-324, 1e16), (1e-10, math.inf), (math.inf, 2.0), (1e300, 10.0),
                                     (1.7976931348623157e308, 1.1), (2.2250738585072014e-308, 1.7e308), (1e-200, 1e90), (3e-5, 7e11)]])


def c04(ctx):
    rng = random.Random(ctx.seed)
    exe = build(ctx)
    cases = gen(ctx, "buckets", spec="BucketGen")
    # longer explicit lists: sorted, and spoiled in one place
    for n in (5, 8, 16, 33):
        for k in range(20 if ctx.quick else 400):
            l = sorted({unbits(rng.getrandbits(64)) if rng.random() < 0.5 else rng.uniform(-5, 5) for _ in range(n + 30)} - {math.nan})
            l = [x for x in l if x == x][:n]
            if k % 2:
                p = rng.randrange(n - 1)
                l[p + 1] = rng.choice([l[p], l[p - 1] if p else -math.inf, math.nan, -math.inf])
            cases.append({"ctor": "with", "n": n, "l": [limbs(x) for x in l]})
    # arguments that are not exact: start > 0, so that nothing cancels
    for i in range(60 if ctx.quick else 2000):
        n = rng.choice([1, 2, 3, 5, 8, 16, 33, 130, 300])
        if i % 2:
            c = {"ctor": "lin", "x": rng.choice([0.1, 1e-9, 1e9, 0.3, 16777217.0]) * rng.uniform(0.5, 2), "y": rng.choice([0.1, 0.7, 1e-3, 1e5]) * rng.uniform(0.5, 2)}
        else:
            c = {"ctor": "exp", "x": rng.choice([0.1, 1e-9, 1e9, 0.3]) * rng.uniform(0.5, 2), "y": rng.choice([1.1, 1.5, 2.5, 1.0001, 10.0 if n < 200 else 3.0])}
        c["n"] = n
        c["near"] = near(c)
        cases.append(c)
    for ctor, x, y in FAR:
        for n in (0, 1, 2, 3, 5, 8, 16, 33):
            cases.append({"ctor": ctor, "x": x, "y": y, "n": n, "near": near({"ctor": ctor, "x": x, "y": y, "n": n})})
    scripts = []
    for i, c in enumerate(cases):
        ctor, a = script(c)
        scripts.append(("b%d" % i, ["thr %s %d %s" % (ctor, c["n"], " ".join(a))]))
    res = run_scripts(ctx, exe, scripts)
    recs = []
    for (i, lines), c in zip(scripts, cases):
        o = res[i][0].split()
        r = o[0] == "panic"
        recs.append(dict(c, id=i, rejected=r, out=[] if r else floats_limbs(o[1:])))
    by = {r["id"]: r for r in recs}
    judge(ctx, "BucketTrace", recs, "a bucket builder does not produce the documented bounds",
          explain=lambda b: {"builder": by[b]["ctor"], "n": by[b]["n"], "arguments": [val(by[b][k]) for k in "ab"] if "a" in by[b] else [by[b]["x"], by[b]["y"]] if "x" in by[b] else floats(by[b]["l"]),
                             "returned": "rejected" if by[b]["rejected"] else floats(by[b]["out"])})
    # observations: every accepted list of bounds, values at, next to and between the bounds
    docs = []
    good = [r for r in recs if not r["rejected"]]
    withs = [r for r in good if r["ctor"] == "with"]
    rest = [r for r in good if r["ctor"] != "with"]
    rng.shuffle(rest)
    chosen = withs + [r for r in rest if r["n"] > 100][:6] + rest[:60 if ctx.quick else 600]
    n = 0
    for r in chosen:
        le = floats(r["out"])
        ctor, a = script(r)
        pool = [0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308]
        for x in le:
            pool += neighbours(x)
        pool += [(x + y) / 2 for x, y in zip(le, le[1:])]
        pool = list({bits(x): x for x in pool}.values())
        ops = []
        for x in pool:
            for _ in range(rng.choice([1, 1, 2])):
                ops.append((0, rng.choice(["obs", "obsg", "obsm"]), x))
        for x in durations(rng, le):
            ops.append((0, rng.choice(["dur", "durm", "durv"]), x))
        rng.shuffle(ops)
        if r["n"] > 100 and ctx.quick:
            ops = ops[:100]
        rep = rng.choice(["one", "dense", "sparse"])
        f = Fam("hist", rep, [[]] if rep != "one" else [], le, ops, "%d@%s %s" % (r["n"], ctor, " ".join(a)))
        docs.append(("h%d" % n, [f], [F(0, b"h")]))
        if le == sorted(le):
            f = Fam("hist", rep, f.rows, le, [(0, rng.choice(["dur", "durm", "durv"]), x) for x in durations(rng, le)], f.ctor)
            docs.append(("d%d" % n, [f], [F(0, b"h")]))
        n += 1
    # arguments that are not exact fractions, or odd: the bounds are taken as returned (linear with -inf and +inf has no
    # meaning beyond its first bound, and is not observed)
    odd = [("lin", math.nan, 1.0), ("lin", -math.inf, 1.0), ("lin", -1e308, 1e308), ("exp", 1e-300, 1e200), ("lin", 0.1, 0.1), ("lin", 1e300, 1e292), ("lin", 1e20, 1.0), ("lin", 0.0, math.inf),
           ("exp", 1e-300, 1e100), ("exp", 5e-324, 1.5), ("exp", 0.1, 1.1), ("exp", math.inf, 2.0), ("exp", 1e300, 10.0)]
    for c, a, b in odd:
        for size in (0, 1, 3, 16):
            o = run_scripts(ctx, exe, [("x", ["thr %s %d %s %s" % (c, size, fhex(a), fhex(b))])])["x"][0].split()
            if o[0] == "panic":
                ctx.violation("a bucket builder rejects arguments it documents as valid", {"builder": c, "arguments": [a, b]})
                continue
            le = floats(floats_limbs(o[1:]))
            ops = [(0, "obs", x) for y in set(le) | {0.0, 1.0, math.nan} for x in neighbours(y)]
            docs.append(("odd%d" % n, [Fam("hist", "one", [], le, ops, "%d@%s %s %s" % (size, c, fhex(a), fhex(b)))], [F(0, b"h")]))
            n += 1
    obs = sum(len(f.ops) for _, fs, _ in docs for f in fs)
    ctx.add(builders=len(cases), accepted=len(good), observations=obs, evaluations=len(cases) + obs,
            distinct_nontrivial=len(cases) - len(good) + obs)
    ctx.coverage["rule"] = ("arguments of every builder enumerated by TLC, random longer lists; for each accepted list of bounds "
                            "values equal to, next to and between its bounds, infinities and NaN, by every access path; "
                            "non-trivial: a rejection, or an observation at or next to a bound")
    export.judge_docs(ctx, docs, ["text"], "an observation is exported in the wrong buckets")


def floats_limbs(hexes):
    return [[int(h[4 * k:4 * k + 4], 16) for k in range(4)] for h in hexes]
