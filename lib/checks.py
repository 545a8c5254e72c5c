"""What each check runs."""
import buckets, conc, decls, derive, export, faults, model, names, proc, sets, tok
from common import *

MC = "model_checking"


def concurrency(prop, quick, thorough, spur=0):
    def f(ctx):
        model.check(ctx, prop)
        scens = conc.scenarios(ctx, prop, quick if ctx.quick else thorough, spur)
        conc.explore(ctx, scens, 45 if ctx.quick else 900)
        if prop == "C08":
            sets.families(ctx, "count", "what an idle family reports")
    return f


def c09(ctx):
    conc.c09(ctx)
    sets.families(ctx, "families", "one history on the representations of a family")


def c14(ctx):
    export.c14(ctx)
    faults.c14(ctx)


CHECKS = {
    "C01": (concurrency("C01", (150, 40, 40), (3000, 600, 600)), MC),
    "C02": (concurrency("C02", (150, 40, 40), (3000, 600, 600), spur=1), MC),
    "C03": (concurrency("C03", (120, 30, 40), (2000, 400, 600)), MC),
    "C06": (concurrency("C06", (150, 40, 40), (3000, 600, 600)), MC),
    "C07": (concurrency("C07", (150, 40, 40), (3000, 600, 600)), MC),
    "C08": (concurrency("C08", (150, 40, 40), (3000, 600, 600)), MC),
    "C15": (concurrency("C15", (120, 30, 40), (2000, 400, 600)), MC),
    "C04": (buckets.c04, MC),
    "C05": (sets.c05, MC),
    "C09": (c09, MC),
    "C10": (export.c10, MC),
    "C11": (export.c11, MC),
    "C12": (export.c12, MC),
    "C13": (names.c13, MC),
    "C14": (c14, "fault_enumeration"),
    "C16": (derive.c16, MC),
    "C17": (derive.c17, MC),
    "C18": (proc.c18, MC),
    "C19": (tok.c19, MC),
    "C20": (concurrency("C20", (150, 40, 40), (3000, 600, 600)), MC),
    "C21": (decls.c21, MC),
}

CONC_NOTE = ("Registry is checked with TLC on the same program families; on the real code every schedule up to the "
             "stated number of preemptions for small programs plus random schedules for larger ones. Sequentially "
             "consistent interleavings at synchronisation operations only (no weak memory); trusts the scheduler "
             "facade, the harness's reading of the text output and TLC.")
DOC = "TLA+ specification of %s; cases enumerated from it with TLC are run on the real code and what the code did is judged by TLC"
TECHNIQUE = {
    "C04": DOC % "bucket bounds and cumulative buckets (Buckets, Exposition) over IEEE 754 floats",
    "C05": DOC % "label identities and dense slots (LabelSets)",
    "C10": DOC % "the text format, as a reading automaton, and of the families to export (TextFormat, Exposition)",
    "C11": DOC % "encoders as document producers (Encoders), with fresh encoders as the reference",
    "C12": DOC % "the protobuf wire format, as a reader, and of the families to export (ProtoWire, Exposition)",
    "C13": DOC % "names and their composition (Names)",
    "C14": DOC % "encoders as document producers (Encoders), with a fault injected at every call of the destination",
    "C16": "TLA+ specification of group trees and of the families they export (Exposition, with the TextFormat and ProtoWire readers); "
           "trees and struct declarations enumerated from it with TLC are collected by the real code (the declarations through the "
           "derive macro) and the documents are judged by TLC",
    "C17": "TLA+ specification of variant naming and label group identities (Derive, LabelSets); declarations enumerated from it "
           "with TLC are compiled with the derive macros, and what the compiled code does is judged by TLC",
    "C18": "TLA+ specification of what /proc reports and what a collector then exports (Process, Decimal); histories enumerated from it "
           "with TLC (ProcGen) run on the real collector over a /proc of our own and over real processes, judged by TLC",
    "C19": "TLA+ specification of what runtimes report and what a collector then exports (Runtimes); histories enumerated from it with "
           "TLC (TokGen) run on real tokio runtimes, judged by TLC",
    "C21": "TLA+ specification of which declarations have a meaning (Declarations); declarations enumerated from it with TLC (DeclGen) are "
           "compiled with the derive macros, and which of them the compiler rejected is judged by TLC",
}
SEQ_NOTE = ("Bounded: every case of the enumerated families and seeded random larger ones, not every input. Trusts the readers "
            "written in TLA+, the harness that drives the public interface, Python's parsing of float tokens, and TLC.")
NOTE = {i: SEQ_NOTE for i in TECHNIQUE}
