#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state.split(",")[0],"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[o.strip() for o in observe.split(";")]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="core/src/metric.rs"; S="core/src/metric/sparse.rs"; H="core/src/metric/histogram.rs"
C="core/src/metric/counter.rs"; G="core/src/metric/gauge.rs"; T="core/src/text.rs"
N="core/src/metric/name.rs"; GR="core/src/metric/group.rs"; LG="core/src/label/group.rs"; LI="core/src/label/impls.rs"; LV="core/src/label/value.rs"
PR="prometheus-proto/src/lib.rs"; PE="prometheus-proto/src/encoding.rs"

prop("C01","No counter or integer-gauge update is ever lost or applied twice",
 "Every completed increment, decrement or set of a counter or integer gauge (through the family, a guard, or an exclusive reference; single or labelled) takes effect exactly once and atomically, so any value later exported or read is the result of applying the updates in some order consistent with real time. In particular, when concurrent updaters that only add or subtract have finished, the value is the exact sum (wrapping at 64 bits).",
 ["schedules","histories","inputs"],"every interleaving of any number of threads updating, reading and scraping one or several series, first uses included; every 64-bit delta",
 "Unit tests update from one thread; benches run threads but assert nothing. A read-modify-write split in two, or an update applied to a fresh unattached cell, passes all of them.",
 [C,G,M,S],[("counter update","CounterState::inc/inc_by, CounterVec::inc/inc_by(_mut), Counter::*"),("gauge update","GaugeLockGuard/GaugeMut/GaugeVec/Gauge inc,dec,set")],
 "per-series 64-bit value","value field of each series; exported sample")
prop("C02","Float gauge updates are atomic read-modify-writes",
 "Every completed increment, decrement or set of a float gauge takes effect exactly once and atomically under any contention, spurious hardware failures included, and a read returns a value some order of the updates (consistent with real time) produces. Increments by representable amounts therefore add up exactly.",
 ["schedules","histories","inputs"],"every interleaving of float updates/sets/reads, with compare-exchange allowed to fail spuriously at any attempt",
 "No test updates a float gauge concurrently; on x86 weak compare-exchange never fails spuriously, so the retry path is not reached.",
 [G],[("CAS loop","AtomicF64::inc_by/dec_by/set/get"),("wrappers","FloatGaugeLockGuard/FloatGaugeMut/FloatGaugeVec/FloatGauge")],
 "f64 per series","exported sample / public atomic")
prop("C03","A histogram scrape is an atomic snapshot of whole observations",
 "Each exported histogram sample is a consistent cut: bucket counts never decrease along the bounds, the +Inf bucket equals the count, and buckets, count and sum all describe exactly the same set of observations, which contains every observation completed before the scrape began and none begun after it ended. No observation is ever lost or counted twice, and successive scrapes never go backwards.",
 ["schedules","histories"],"every interleaving of concurrent observers and scrapers on the same histogram or histogram family",
 "Existing histogram tests observe and scrape from one thread, where a torn snapshot cannot appear.",
 [H,T],[("observation under the shared lock","HistogramLockGuard::observe, HistogramStateInner::observe"),("sampling under the exclusive lock","HistogramState::collect_into -> inner.write().sample()")],
 "buckets, inf, sum","_bucket/_sum/_count samples")
prop("C04","Every observation lands in the right bucket, for every float and bound list",
 "For every observed value, exactly the buckets whose upper bound is greater than or equal to it are incremented in the cumulative export; values above every bound, and NaN, are only in +Inf and the count. The bucket builders produce exactly the documented bounds (linear, exponential, explicit; any number of buckets including none), and reject the argument lists they document as invalid.",
 ["inputs"],"all f64 values (NaN, infinities, signed zero, subnormals, exact bounds and their neighbours) and all strictly increasing bound lists of any length",
 "Tests try a handful of interior values on one bound list; boundary equality, NaN, signed zero, empty lists are never tried.",
 [H],[("bucket search","partition_point in HistogramLockGuard::observe and HistogramMut::observe"),("builders","Thresholds::exponential_buckets/linear_buckets/with_buckets")],
 None,"_bucket samples, Thresholds::get")
prop("C05","Label groups and series identities are in bijection",
 "In one metric family two label groups address the same series exactly when all their label values are equal, the series a label group updates is exported with exactly those label names and values, and dense slots are in 0..cardinality with every slot reachable. A group holding a value outside a fixed set is rejected (no identity, no series created) instead of being folded into another series, for every kind of label set (derived, single-label, composed, shared, indexed, interned, perfect-hash) and however the hashes of identities collide.",
 ["inputs","programs"],"every shape of label group (fixed and dynamic fields in any order, any cardinalities, nested/composed/shared sets) and every value, including adversarial hash collisions",
 "Tests use two or three shapes with one or two values each; radix mix-ups, collisions within a shard and out-of-set values are not covered.",
 ["core/src/label.rs",LG,LI,LV,"derive/src/label_group/mod.rs",M,S],[("mixed radix encode/decode","derive(LabelGroup) expansion, StaticLabelSet, ComposedGroup set"),("set impls","LabelSet impls for IndexSet, RodeoReader, ThreadedRodeo, phf::OrderedSet, Arc"),("lookup by hash+equality","ShardedMap::get_metric")],
 "label id <-> label values","exported label set of each series; try_with_labels; get_label_set().encode/decode")
prop("C06","Concurrent first use of a label creates exactly one series",
 "When any number of threads touch a label group for the first time at once, exactly one series comes into existence, all of them get that same series, and none of their updates is lost. A series is never exported or counted twice, and first use of one label never disturbs the series of another.",
 ["schedules","histories"],"every interleaving of concurrent first uses, updates, removals and scrapes on dense and sparse families, with labels sharing or not sharing a shard",
 "The race window between the read-locked miss and the write-locked insert is a few instructions; tests are single threaded.",
 [S,M],[("miss, write-lock, re-check, insert, downgrade","ShardedMap::get_metric"),("dense once-cell","VecInner::get_metric get_or_init")],
 "set of live series","scrape, get_cardinality, guard contents")
prop("C07","Removal returns the exact final state and conserves every update",
 "Removing a series returns its complete state exactly once: each completed update is found in exactly one place, either a removed state or the series now live under that label, and an update made through a held guard is never stranded in a removed series. Removing an absent series or one of a dense family returns nothing and changes nothing; a series used again after removal starts from zero; other series are untouched.",
 ["schedules","histories"],"every interleaving of removals with updates through guards, first uses, other removals and scrapes",
 "The one removal test is sequential, on one label.",
 [S,M],[("removal under the shard write lock","ShardedMap::remove_metric"),("guard holds the shard read lock","MetricLockGuard (sparse)")],
 "live series map","returned state; later scrape")
prop("C08","A scrape shows every live series exactly once; cardinality is exact",
 "A scrape that overlaps other operations reports each series that existed throughout it exactly once, reports no series that did not exist at any time during it, and gives each reported series a value it had at some moment during the scrape. With no overlap the scrape equals the live series set exactly, and the reported cardinality is the number of live series together with the size of a fixed label set (none when unbounded).",
 ["schedules","histories","configurations"],"every interleaving of scrapes with creation, update and removal; any number of series; dense, sparse and default representation around the size limit",
 "Tests scrape a quiescent registry with a few series; shard skipping or double visiting would not show.",
 [M,S],[("family collection","MetricVec::collect_family_into"),("cardinality","MetricVec::get_cardinality, ShardedMap::get_cardinality"),("eager initialisation","init_all_dense")],
 "live series set","exported document; get_cardinality")
prop("C09","Representation and access path never change what a history means",
 "The same history of operations gives the same results and the same exported contents (up to order of series) whichever representation a family uses and whichever access path is taken: dense, sparse or default; shared, guard-based or exclusive methods; single metric or one-label family; default or explicit construction. Only the documented difference shows: dense families cannot remove.",
 ["histories","configurations","inputs"],"all finite sequential histories over all metric kinds, constructors and access paths",
 "Tests exercise each path once, never compare paths with each other, and never mix them in one history.",
 [M,C,G,H,S],[("representations","VecInner::Dense/Sparse"),("exclusive paths","get_metric_mut, *_mut methods, HistogramMut, FloatGaugeMut, GaugeMut"),("eager initialisation","init_all_dense")],
 "per-series value","exported document, get_cardinality, remove results")
prop("C10","Text exposition is well-formed and reads back to exactly what was recorded",
 "Whatever is recorded, the text output parses under the Prometheus text format and reading it back yields exactly the recorded names, help texts, types, label names and values, and sample values: label values and help text with quotes, backslashes or newlines, the full unsigned 64-bit range of counters and counts, integers, floats, infinities and NaN. Every sample line is complete, belongs to the family announced just before it, and histogram families carry cumulative buckets, +Inf, sum and count.",
 ["inputs","histories"],"all metric values, label values, help texts, names and family sequences",
 "Snapshot tests cover small ASCII inputs; escaping of help, large counters and special floats are never exercised, and nothing parses the output.",
 [T,LG,LI],[("label escaping","write_label_str_value"),("families","write_help/write_type/write_metric_value, State"),("histogram layout","HistogramState::collect_into")],
 "encoder position (family header / samples)","bytes written")
prop("C11","Encoders are reusable: each document stands alone",
 "Any number of documents can be produced from one encoder: each finished document is exactly what a fresh encoder would have produced for the same collection, with nothing of an earlier document left over and nothing lost, and groups collected one after another into one document keep their own headers. Collecting changes no metric, so repeating a scrape of an idle registry gives the same bytes; this holds for the text, buffered text and protobuf encoders.",
 ["histories"],"all sequences of collections, empty families and flush/finish calls on one encoder",
 "Tests make one document per encoder.",
 [T,PR],[("text state machine","TextEncoder::flush, BufferedTextEncoder::finish"),("protobuf header/pending state","ProtoEncoder::write_help/write_type/flush_buf/flush")],
 "encoder state, pending buffer","bytes of each document")
prop("C12","Protobuf exposition decodes to exactly the recorded families",
 "The protobuf output is a sequence of correctly length-delimited MetricFamily messages that a standard reader decodes to exactly what was recorded: every family that has samples appears once under its own name, help and type, with each series' labels and value intact, and families without samples leave no trace and never lend their name, help or type to another family. This holds for every order of families, with or without help, at any size.",
 ["inputs","histories"],"all sequences of families (with/without help, empty or not), all label and value ranges, all message sizes around length-prefix boundaries",
 "Tests encode one small registry and compare with a reference once.",
 [PR,PE],[("header state machine","ProtoEncoder::{write_help,write_type,write_metric,flush_buf}"),("wire encoding","encoding.rs varint/len prefix")],
 "pending header buffer","bytes written")
prop("C13","Only valid names are accepted and composed names are exact",
 "A metric name is accepted exactly when it matches [a-zA-Z_:][a-zA-Z0-9_:]* and a label name exactly when it matches [a-zA-Z_][a-zA-Z0-9_]*, by every constructor (compile-time, fallible, namespace), and everything else is rejected. Namespaces and suffixes compose to exactly namespace, underscore, name, underscore-suffix, and the length a name declares always equals the number of bytes it writes.",
 ["inputs","programs"],"all strings (including non-ASCII and empty) and all nestings of namespaces and suffixes",
 "No test checks rejection, and only short well-formed names are encoded.",
 [N,"core/src/label/name.rs",GR],[("validation","const_assert_metric_name, try_assert_metric_name, assert_label_name"),("composition","WithNamespace, WithSuffix, encode_utf8/encode_len")],
 None,"constructor result; bytes written; encode_len")
prop("C14","Output errors always reach the caller and never corrupt later output",
 "If the destination fails at any write or flush, the collection or flush call in progress returns an error and never reports success for output that did not arrive; short writes and interruptions are retried without losing or repeating bytes. Apart from the missing tail, bytes that did arrive are a prefix of the fault-free output, a failed collection leaves metrics and locks usable, and after a failed finish (for protobuf, after any failure) a later document contains nothing left over from the failed one.",
 ["fault_sequences","inputs"],"a failure, short write or interruption at every write position of every document",
 "All tests write into memory, which never fails.",
 [T,PR,N],[("label visitor","GroupVisitor in TextEncoder::write_metric_value"),("protobuf flush","ProtoEncoder::flush_buf")],
 "writer","Result of collect/flush; bytes received by the writer")
prop("C15","A timer records its histogram observation exactly once",
 "A timer contributes exactly one observation to its own histogram and series, of the time elapsed since it was started, however it ends: explicitly (returning that duration), by going out of scope, or by unwinding from a panic. A discarded timer contributes nothing, and the series a timer uses is the one its labels named at start, even if that series is removed or first created meanwhile.",
 ["schedules","histories","inputs"],"every way a timer can end, in any interleaving with other timers, observers, scrapes and removals; any elapsed time",
 "Tests only drop one timer and check nothing but a count.",
 [H],[("timers","HistogramTimer/HistogramVecTimer start_timer, observe, forget, Drop"),("durations","observe_duration(_since)")],
 "running timers","exported count/sum; returned Duration")
prop("C16","Metric groups export exactly their families, in order, correctly named",
 "Collecting a group visits each of its families exactly once, in declaration order, under the declared or renamed name with every enclosing namespace prefixed outermost first, with its documentation as help; flattening adds nothing to names. References, shared pointers, composition and present optionals are transparent, absent optionals contribute nothing, and field initialisers (metadata, label sets, constructor arguments) reach exactly their field.",
 ["programs","inputs"],"every tree of groups built from fields, namespaces, flattening, renames, optionals, shared and composed groups, into any encoder",
 "Tests expand two or three fixed groups and compare snapshots.",
 [GR,"derive/src/metric_group/mod.rs"],[("derive","MetricGroup derive: init/metadata/label_set/rename/namespace/flatten"),("combinators","MetricGroup impls for &, Arc, Option, ComposedGroup, WithNamespace")],
 None,"sequence of headers and samples in the exported document")
prop("C17","Derived labels name and number every value distinctly",
 "For every enum, the derived label has as many values as variants, numbers them 0 to n-1 in order, decodes each number back to the variant it came from, and exports the declared name of the variant: explicit rename first, else the container's renaming rule applied word by word, else snake case (or the discriminant where integers are requested). A derived label group exports its fields in declaration order under their (renamed) names, whatever mixture of fixed, fixed-set, dynamic, default and generic fields it declares.",
 ["programs"],"every enum and struct a user can declare with the documented attributes",
 "Tests derive a handful of types; the naming rules are checked on two or three names.",
 ["derive/src/value","derive/src/label_group"],[("FixedCardinalityLabel derive","derive/src/value/*"),("LabelGroup derive","derive/src/label_group/*")],
 None,"exported label names/values; encode/decode/cardinality")
prop("C18","Process metrics are a faithful snapshot of the right process",
 "Collecting a process collector exports, for the process it was created for and no other, the number of open descriptors, descriptor limit, virtual and resident memory in bytes, CPU seconds, threads and start time as the operating system reports them at the scrape, each family at most once with its help. When the process has gone, or the system does not report a quantity (an unlimited descriptor limit, an unreadable file), the corresponding families are omitted; nothing fails and nothing is attributed to another process.",
 ["histories","configurations"],"every process (own or other, alive, changing or ended), every sequence of process-state changes and scrapes",
 "The crate's tests only collect the current process once and check nothing about the values.",
 ["process/src/lib.rs"],[("collector","ProcessCollector::new/for_self/collect_group_into"),("file reads","/proc/<pid>/{fd,limits,stat}")],
 "start time, descriptor limit cached at creation","exported gauges")
prop("C19","Runtime metrics name and count every registered runtime exactly once",
 "A runtime collector exports every documented runtime family with exactly one sample per registered runtime, worker and kind, labelled by the runtime's name and worker index, each value equal to what the runtime itself reports; adding runtimes at any time affects the next scrape and no other runtime's samples. With no runtime registered nothing but headers is exported.",
 ["histories","configurations"],"all sequences of registrations, runtime configurations and scrapes",
 "The crate's tests print one collection.",
 ["tokio/src/lib.rs"],[("collector","RuntimeCollector, NamedRuntimesCollector::add/collect_group_into")],
 "registered runtimes","exported samples")
prop("C20","No schedule deadlocks, panics or livelocks the library",
 "No interleaving of updates, first uses, removals, cardinality queries, timers and scrapes, with each thread holding at most one guard at a time, deadlocks or panics: whenever no thread is blocked outside the library some operation completes, and every operation completes under a fair scheduler. A panic in user code during an operation (a label value, a writer or an encoder) leaves every metric usable.",
 ["schedules","fault_sequences"],"all interleavings of all public operations, with fair and writer-preferring locks; a panic injected in any user callback",
 "Tests never run two operations at once nor panic inside a callback.",
 [S,H,M,T],[("lock order shard -> histogram","ShardedMap shards, HistogramState.inner"),("downgrade","RwLockWriteGuard::downgrade in get_metric")],
 "lock ownership","completion of calls")
prop("C21","A declaration gets its meaning or does not compile",
 "A derive gives a declaration the documented meaning or rejects it when it is compiled, never dropping a part of it: unknown, misplaced, repeated or contradictory arguments, arguments with a value of the wrong kind, a missing required argument, an unknown renaming rule, a label set of the wrong sort (growing where a fixed one is declared or the reverse), an item of a shape it does not support (structs or unions for labels; enums, unions, tuple or unit structs for groups; variants with data or with discriminants that are not integer literals), metric and label names that are not names, and two fields of one name, are compile errors. Every declaration that uses documented arguments in any order, in one attribute or several, each at most once and without contradiction, with distinct valid names, compiles.",
 ["programs"],"every declaration a user can write for the three derives: any sequence of arguments at every place, any shape of item, any names",
 "Tests are declarations that compile; one that should not compile, or should and does not, cannot be among them.",
 ["derive/src/value","derive/src/label_group","derive/src/metric_group"],[("argument parsing","derive/src/*/attr.rs"),("item shapes","derive/src/*/parse.rs"),("names checked in constants","derive/src/*/to_tokens.rs")],
 None,"acceptance or rejection by the compiler")
out="/verif/properties.jsonl" if not os.environ.get("OUT") else os.environ["OUT"]
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
