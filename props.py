"""How each property is decided: which monitor binary runs, with which engines and budgets
(seconds of workload), and what counts as a distinct, non-trivial execution."""


def std(pkg, b, rule, quick=10, thorough=240, miri=None, tsan=None, assumptions=(), technique=""):
    s = {"pkg": pkg, "bin": b, "rule": rule, "assumptions": list(assumptions), "technique": technique,
         "engines": {"quick": [("native", quick)], "thorough": [("native", thorough)]}}
    if miri:
        s["miri"] = miri[0]
        s["miri_jobs"] = {"quick": 24}
        s["engines"]["quick"].append(("miri", miri[1]))
        s["engines"]["thorough"].append(("miri", miri[2]))
    if tsan:
        s["tsan"] = tsan[0]
        s["engines"]["quick"].append(("tsan", tsan[1]))
        s["engines"]["thorough"].append(("tsan", tsan[2]))
    return s


DIFF = "a generated history counts as distinct by the hash of its whole operation trace, and as non-trivial when it performed operations and compared results with the reference model"
PIPE = "a run counts as distinct by the hash of its configuration and of what was exported in which batches, and as non-trivial when items were exported"
PROPS = {
    "M01": std("hsdk", "hm", "a run counts as distinct by the hash of its workload and the collected partial sums, and as non-trivial when at least one collection overlapped recording", quick=14,
               miri=(["counter", "counter-f64", "histogram", "gauges"], 12, 300), technique="runtime monitoring: conservation and window monitor over concurrent recording with injected preemption; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "M02": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: online differential against a reference aggregation"),
    "M03": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: callback-script monitor against reported points"),
    "M04": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: bucket-membership and count oracle over generated value streams"),
    "M05": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: cardinality and conservation oracle"),
    "M06": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: window-chaining checker over collection logs"),
    "M07": std("hsdk", "hm", DIFF, quick=8, technique="runtime monitoring: differential against a reference view resolver"),
    "M08": std("hsdk", "hm", DIFF, quick=8, miri=(["creation"], 12, 300), technique="runtime monitoring: differential against an identity-keyed reference, including creation races; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "M09": std("hsdk", "hm", "a run counts as distinct by its script or by what was exported when, and as non-trivial when measurements were recorded", quick=12,
               miri=(["periodic"], 12, 300), technique="runtime monitoring: recording exporter with online delivery/lifecycle monitor under scripted failures and injected preemption; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "T01": std("hsdk", "ht", PIPE, quick=12, miri=(["spans-batch"], 12, 300), technique="runtime monitoring: gated/recording exporter with an offline delivery checker (exactly-once, order, batch size, refusal justification) under injected preemption; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "L01": std("hsdk", "ht", PIPE, quick=12, miri=(["logs-batch"], 12, 300), technique="runtime monitoring: gated/recording exporter with an offline delivery checker (exactly-once, order, batch size, refusal justification) under injected preemption; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "X01": std("hsdk", "ht", PIPE, quick=10, miri=(["spans-simple", "logs-simple", "shared-span"], 12, 300), technique="runtime monitoring: recording exporter with exactly-once, order, overlap and shutdown monitors; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "A01": std("hsdk", "ht", PIPE, quick=14, miri=(["spans-async", "logs-async", "periodic-async"], 12, 300), technique="runtime monitoring: recording exporters on async runtimes with delivery, concurrency, timeout and termination monitors; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "T02": std("hsdk", "ht", DIFF, quick=8, technique="runtime monitoring: differential of delivered spans against a sequential reference of the operations"),
    "T03": std("hsdk", "ht", DIFF, quick=8, technique="runtime monitoring: limit and drop-count oracle over generated span histories"),
    "T04": std("hsdk", "ht", DIFF, quick=8, technique="runtime monitoring: sampling-decision monitor over generated sampler trees and parents"),
    "T05": std("hsdk", "ht", DIFF, quick=8, technique="runtime monitoring: parentage and identifier oracle over concurrently built span trees"),
    "L02": std("hsdk", "ht", DIFF, quick=8, technique="runtime monitoring: recording processors compared with a sequential reference of the record's operations, single- and multi-threaded"),
    "V01": std("hsdk", "ht", "a script counts as distinct by its operation trace, a race by the order of calls the members saw and each call's outcome; non-trivial with at least one member and, for races, a shutdown", quick=8,
               miri=(["lifecycles"], 12, 300), technique="runtime monitoring: lifecycle-call log of scripted-failure processors and readers against a lifecycle model, including racing clones; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "C02": std("hsdk", "ht", "a run counts as distinct by its scope script or its configuration and export log, and as non-trivial when it entered suppression", quick=8,
               technique="runtime monitoring: suppression-state model checked after every step; exporters that produce telemetry themselves"),
    "W01": std("hsdk", "ht", "a life counts as distinct by its configuration, the numbers lost and what was reported, and as non-trivial when something was emitted or created", quick=8,
               technique="runtime monitoring: a tracing subscriber records the SDK's internal log; what it reports is compared with the losses and failures the monitor's own exporters, readers and counters saw"),
    "L03": std("happ", "happ", DIFF, quick=8, technique="runtime monitoring: generated log records and tracing events (dynamic call sites, whole serde data model) against the expected translation"),
    "C01": std("hsdk", "hc", DIFF, quick=8, miri=(["contexts"], 12, 300), technique="runtime monitoring: per-thread stack model of attachments checked after every step, across threads and re-entrant drops; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules)"),
    "C03": std("hsdk", "hc", DIFF, quick=8, technique="runtime monitoring: context observed inside every poll of generated future/stream/sink trees under interleaved executors, compared with the expected one"),
    "P01": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: round-trip and independent strict/lenient header oracle over generated and mutated trace-context headers"),
    "P02": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: differential against a reference ordered list; every older version re-checked after each operation"),
    "P03": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: differential against a reference bounded map after every operation"),
    "P04": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: round-trip and independent baggage-header oracle over generated and malformed headers"),
    "P05": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: round-trip and independent B3 header oracle over every encoding pair"),
    "P06": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: round-trip and independent Jaeger header oracle over generated and malformed headers"),
    "P07": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: recording members and carriers against a sequential-composition reference; global propagator under concurrent replacement"),
    "R01": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: differential against a precedence model over generated builds and environments; resources observed at exporters"),
    "K01": std("hsdk", "hp", DIFF, quick=7, technique="runtime monitoring: equality/hash/order oracle over every storage form, and observed aggregation"),
    "E01": std("hotlp", "hotlp", DIFF, quick=7, technique="runtime monitoring: requests recorded at the HTTP client, decoded by an independent protobuf/JSON reader and compared with the exported spans"),
    "E02": std("hotlp", "hotlp", DIFF, quick=7, technique="runtime monitoring: requests recorded at the HTTP client, decoded by an independent protobuf/JSON reader and compared with the exported metrics"),
    "E03": std("hotlp", "hotlp", DIFF, quick=7, technique="runtime monitoring: requests recorded at the HTTP client, decoded by an independent protobuf/JSON reader and compared with the exported records"),
    "E04": std("hotlp", "hotlp", "an exporter's life counts as distinct by its transport, client and sequence of collector behaviours and results, non-trivial with at least one export", quick=8,
               technique="runtime monitoring: export results compared with what a scripted, misbehaving loopback collector was sent and did (statuses, cuts, stalls, garbage, refusals)"),
    "E05": std("hotlp", "hotlp", DIFF, quick=9, technique="runtime monitoring: requests and timeouts observed at loopback collectors against a precedence model over generated code settings and environments"),
    "E06": std("hotlp", "hotlp", DIFF, quick=8, technique="runtime monitoring: requests recorded at the HTTP client and at a misbehaving loopback collector, decoded by an independent JSON reader, compared with the exported spans and the results returned"),
    "E07": std("prom", "prom", DIFF, quick=8,
               technique="runtime monitoring: scrapes read back by an independent text-format parser and compared with a model of the recorded measurements; consistency and monotonicity watched while recording races scraping"),
    "J01": std("hotlp", "hotlp", DIFF, quick=8,
               technique="runtime monitoring: scripted strategy server; decisions compared with the strategy last received, rate limiter checked online against token-bucket bounds"),
    "G01": std("hsdk", "hg", "a script counts as distinct by its operation trace, a race by its case, and as non-trivial when handles were used", quick=8, technique="runtime monitoring: install/lookup scripts against a register model with lifetime tracking; interval bounds on racing lookups"),
    "U01": std("hsdk", "hg", DIFF, quick=12, technique="runtime monitoring: behaviour of processors, readers, limits and samplers observed under generated code settings and environments"),
    "D01": std("hdev", "hdev", DIFF, quick=8, technique="runtime monitoring: in-memory exporters against a list model; printed output captured from a child process and searched for every expected field"),
    "F01": std("hotlp", "hotlp", "a fleet's life counts as distinct by what it recorded and its seeds, non-trivial when it recorded something", quick=12, technique="runtime monitoring: fleets of services over generated configurations and call graphs; what a loopback collector received compared, item by item, with what the services did; injected preemption"),
    "S01": std("hsdk", "hs", "a run counts as distinct by the hash of its call traces, and as non-trivial when several threads shared the objects used; each re-entrant scenario is one execution", quick=12,
               miri=(["counter", "creation", "gauges", "histogram", "periodic", "periodic-async", "spans-simple", "spans-batch", "spans-async", "logs-simple", "logs-batch", "logs-async", "shared-span", "contexts", "globals", "lifecycles"], 12, 300), tsan=(["counter", "creation", "gauges", "histogram", "periodic", "periodic-async", "spans-simple", "spans-batch", "spans-async", "logs-simple", "logs-batch", "logs-async", "shared-span", "contexts", "globals", "lifecycles"], 8, 200), technique="runtime monitoring: panic, hang and leak monitors over concurrent random API use with injected preemption and over re-entrant user code; small scenarios under Miri (weak memory, leaks, deadlocks, many schedules) and ThreadSanitizer"),
}
