"""Model checking of the specifications themselves (not of the code): Registry promises what the properties
say (MCRegistry), and the design the library follows refines Registry (VecImpl); with a deliberate mistake it
does not. What fails here is a mistake of the specifications, so it is a tool error and never a violation."""
from common import *

# (kind, rep, threads, units per thread, both labels in one shard)
QUICK = {
    "C01": [("counter", "sparse", 2, 1, "FALSE"), ("gauge", "dense", 2, 1, "FALSE")],
    "C02": [("fgauge", "sparse", 2, 1, "FALSE"), ("fgauge", "dense", 2, 1, "FALSE")],
    "C03": [("hist", "sparse", 2, 1, "FALSE"), ("hist", "dense", 2, 1, "FALSE")],
    "C06": [("counter", "sparse", 2, 1, "TRUE"), ("hist", "dense", 2, 1, "FALSE")],
    "C07": [("counter", "sparse", 2, 1, "TRUE"), ("fgauge", "sparse", 2, 1, "FALSE")],
    "C08": [("counter", "sparse", 2, 1, "FALSE"), ("counter", "dense", 2, 1, "FALSE")],
    "C15": [("hist", "sparse", 2, 1, "FALSE"), ("hist", "dense", 2, 1, "FALSE")],
    "C20": [("counter", "sparse", 2, 1, "TRUE"), ("hist", "dense", 2, 1, "FALSE")],
}
MORE = {
    "C01": [("counter", "sparse", 2, 2, "TRUE"), ("gauge", "sparse", 2, 2, "TRUE"), ("counter", "dense", 2, 2, "FALSE"),
            ("gauge", "dense", 2, 2, "FALSE"), ("counter", "sparse", 3, 1, "TRUE"), ("gauge", "dense", 3, 1, "FALSE")],
    "C02": [("fgauge", "sparse", 2, 2, "TRUE"), ("fgauge", "dense", 2, 2, "FALSE"), ("fgauge", "dense", 3, 1, "FALSE")],
    "C03": [("hist", "sparse", 2, 2, "TRUE"), ("hist", "dense", 2, 2, "FALSE"), ("hist", "dense", 3, 1, "FALSE")],
    "C06": [("counter", "sparse", 2, 2, "TRUE"), ("counter", "dense", 2, 2, "FALSE"), ("hist", "sparse", 2, 1, "TRUE"),
            ("counter", "sparse", 3, 1, "TRUE"), ("counter", "dense", 3, 1, "FALSE")],
    "C07": [("counter", "sparse", 2, 2, "TRUE"), ("counter", "sparse", 2, 2, "FALSE"), ("hist", "sparse", 2, 1, "TRUE"),
            ("fgauge", "sparse", 2, 2, "TRUE"), ("counter", "sparse", 3, 1, "TRUE")],
    "C08": [("counter", "sparse", 2, 2, "TRUE"), ("gauge", "dense", 2, 2, "FALSE"), ("hist", "sparse", 2, 1, "FALSE"),
            ("counter", "sparse", 3, 1, "TRUE")],
    "C15": [("hist", "sparse", 2, 2, "TRUE"), ("hist", "dense", 2, 2, "FALSE")],
    "C20": [("counter", "sparse", 2, 2, "TRUE"), ("hist", "sparse", 2, 1, "TRUE"), ("fgauge", "dense", 2, 1, "FALSE"),
            ("counter", "sparse", 3, 1, "TRUE")],
}
# deliberate mistakes, and where they show
BUGS = [("no_recheck", "counter", "sparse", 2, 1, "TRUE", "C07"), ("no_downgrade", "counter", "sparse", 2, 1, "TRUE", "C07"),
        ("upgrade", "counter", "sparse", 2, 1, "TRUE", "C07"), ("rem_unlocked", "counter", "sparse", 2, 1, "TRUE", "C07"),
        ("load_store", "counter", "dense", 2, 1, "FALSE", "C01"), ("cas_blind", "fgauge", "dense", 2, 1, "FALSE", "C02"),
        ("cas_giveup", "fgauge", "dense", 2, 1, "FALSE", "C02"), ("cas_float", "fgauge", "dense", 1, 1, "FALSE", "C02"), ("sum_unlocked", "hist", "dense", 2, 1, "FALSE", "C03"),
        ("sample_shared", "hist", "sparse", 2, 1, "FALSE", "C03"), ("once_race", "counter", "dense", 2, 1, "FALSE", "C06")]


def cfg(ctx, name, consts, invs, live):
    p = os.path.join(ctx.work, name + ".cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for k, v in consts.items():
            f.write("  %s = %s\n" % (k, v if isinstance(v, int) or v in ("TRUE", "FALSE") else '"%s"' % v))
        f.write("INVARIANTS %s\n" % invs)
        if live:
            f.write("PROPERTY Ends\n")
    return p


def check(ctx, prop):
    jobs, what = [], []

    def impl(kind, rep, nt, n, same, p, bug="", live=False):
        c = cfg(ctx, "impl%d" % len(jobs), dict(Kind=kind, Rep=rep, NT=nt, Len1=n, Same=same, Prop=p, Bug=bug),
                "Explained NoPanic Settled Locks", live)
        jobs.append(dict(spec="VecImpl", cfg=c, workdir=ctx.work, workers=2, timeout=120 if ctx.quick else 1500, heap="3g"))
        what.append(("VecImpl", kind, rep, nt, n, same, p, bug, live))

    def mc(kind, rep, nt, n, p, live):
        c = cfg(ctx, "mc%d" % len(jobs), dict(Kind=kind, Rep=rep, NT=nt, Len1=n, Prop=p), "Conserved Whole Distinct", live)
        jobs.append(dict(spec="MCRegistry", cfg=c, workdir=ctx.work, workers=2, timeout=120 if ctx.quick else 1500, heap="3g"))
        what.append(("MCRegistry", kind, rep, nt, n, p, "", live))

    live = prop == "C20"
    for k, r, nt, n, s in QUICK[prop]:
        impl(k, r, nt, n, s, prop, live=live)
    mc(*QUICK[prop][0][:4], prop, live)
    if not ctx.quick:
        for k, r, nt, n, s in MORE[prop]:
            impl(k, r, nt, n, s, prop, live=live and nt == 2)
            if nt == 2:
                mc(k, r, nt, n, prop, live)
        for b in BUGS:
            if b[6] == prop or live:
                impl(*b[1:7], bug=b[0], live=b[0] == "cas_float")
    for w, (ok, viol, out) in zip(what, Tlcs(4).map(jobs)):
        gen, dist = tlc_stats(out)
        bug = w[0] == "VecImpl" and w[7]
        if out == "TIMEOUT":
            # not a verdict on anything: say so
            ctx.notes.append("not finished in time: %r" % (w,))
            continue
        if bug and not viol or not bug and not (ok and dist > 10):
            raise ToolError("model checking of the specification: %r\n%s" % (w, out[-3000:]))
        if bug:
            ctx.add(deliberate_mistakes_found=1)
        else:
            ctx.add(design_states=dist, design_transitions=gen)
