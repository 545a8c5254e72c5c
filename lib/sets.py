"""C05: label sets of every kind, driven by harness/seq, judged by LabelSets."""
import seq
from common import *


def collect(ctx, exe, names, word="set"):
    cases = [(n, ["%s %s" % (word, n)]) for n in names]
    res = seq.run_scripts(ctx, exe, cases)
    recs = []
    for n, ls in cases:
        if n not in res:
            continue
        e = seq.harness_error(res[n])
        if e:
            ctx.violation("label set %s panics: %s" % (n, e), {"set": n, "panic": e})
            continue
        recs.append(json.loads(res[n][0][4:]))
    return recs


def explain_set(recs):
    d = {r["id"]: r for r in recs}

    def f(i):
        c = d[i]
        if "values" in c:
            return {"set of values": {k: [dict(v, **{f: bytes(v[f]).decode(errors="replace") for f in ("label", "shown", "dec")}) for v in c[k]]
                                      if k == "values" else c[k] for k in c}}
        g = [x for x in c["groups"]
             if x["shown"] != x["labels"] or (x["id"] >= 0 and x["dec"] != x["labels"])
             or (x["inside"] == "yes") != (x["id"] >= 0) and x["inside"] != "maybe"]
        return {"set": i, "groups at odds": g[:5],
                "documents": [{k: (bytes(v).decode(errors="replace")[:4000] if k in ("doc", "after") else v)
                               for k, v in x.items()} for x in c["docs"]]}
    return f


def every(ctx):
    exe = seq.build(ctx)
    names = subprocess.run([exe], input=b"sets\n", stdout=subprocess.PIPE).stdout.decode().split()[1:]
    return names, collect(ctx, exe, names)


def families(ctx, part, what):
    """families over every kind of label set: C08 when nothing overlaps (part count), C09 one history on every representation"""
    names, recs = every(ctx)
    recs = [r for r in recs if "groups" in r]
    seq.judge(ctx, "LabelSetTrace", recs, what, explain=explain_set(recs), timeout=800, part=part)
    ctx.add(idle_families=sum(len(r["docs"]) for r in recs))


def c05(ctx):
    names, recs = every(ctx)
    seq.judge(ctx, "LabelSetTrace", recs, "a label set and its families", explain=explain_set(recs), timeout=800)
    ctx.add(value_sets=sum("values" in r for r in recs))
    recs = [r for r in recs if "groups" in r]
    ctx.add(label_sets=len(recs), groups=sum(len(r["groups"]) for r in recs),
            families=sum(len(r["docs"]) for r in recs), traces_validated_against_impl=len(recs))
    ctx.add(evaluations=sum(len(r["groups"]) for r in recs), distinct_nontrivial=sum(g["inside"] != "yes" or g["id"] > 0 for r in recs for g in r["groups"]))
    ctx.coverage["rule"] = ("every group of every set (a sample of the unbounded ones) and outsiders, through encode, decode, dense "
                            "slots and a family of each representation; non-trivial: an outsider, or not the first group")
    ctx.coverage["samples"] = names
