"""Single source of truth: properties, how each is decided, what stays undecided.

gen.py turns this file into properties.jsonl, MANIFEST.json; check.py reads PROPS."""

TECH = "deterministic simulation with fault injection: "
COMMON_REAL = ["all ecma-rs crates involved, compiled from /repo's working tree (optimised, debug assertions and overflow checks on)",
               "std, parking_lot, dashmap, ahash, rayon, serde_json and every other dependency, unmodified"]
COMMON_STUB = ["thread scheduler, futexes, clocks, sleeps, random seeds, CPU count and heap: vsim (sim/vsim.c), one seeded PRNG decides",
               "file system under simulated mounts, pipes, standard streams and child processes: in-memory models in vsim (only where a scenario uses them)"]
NOTE = (" Sampled, not exhaustive: a clean batch is evidence for the schedules and faults drawn, not a proof. Preemption happens at basic-block "
        "granularity under sequential consistency (weak-memory reorderings are out of reach). Trusts the simulator, the generator and the oracle code.")

PROPS = {}
NA = []


def P(id, title, statement, over, qtext, why, files, mech, scenarios, note, **kw):
    PROPS[id] = dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why, files=files, mechanism=mech,
                     scenarios=scenarios, note=note + NOTE, level=kw.pop("level", "exploration"), technique=TECH + kw.pop("technique"), **kw)


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why=why, files=files, mechanism=mech, reason=reason))


TC = "typecheck-ts/src/"

P("P01", "Parallel checking gives one answer",
  "Checking a program gives the same diagnostics, in the same order, whatever the thread schedule, number of worker threads, hash-map seeds and cache sizes "
  "in effect, and always completes. After such a check every export, definition type, type identifier and body result equals the one a sequential run reports.",
  ["schedules", "programs", "configurations"],
  "Every multi-file TypeScript program, every interleaving of the checker's worker threads, every worker count and process hash seed; cache limits and modes as "
  "configured for both runs.",
  "The determinism tests compare a few hand-written programs over a handful of real schedules; the property is about all interleavings of the shared type store, relation and "
  "evaluation caches and the body worker pool.",
  [TC + "program/state/bodies.rs", TC + "program/state/queries.rs", "types-ts-interned/src/store.rs", "types-ts-interned/src/relate.rs", "types-ts-interned/src/cache.rs"],
  [dict(name="content-hash identifiers and canonicalising stores", where="types-ts-interned/src/store.rs"), dict(name="deterministic ordering of definitions, bodies and diagnostics", where=TC + "program/state/analysis.rs")],
  [("schedules", 30), ("recursive", 1)],
  "Generated programs (1-5 files) are checked by the real checker with its real worker pool under seeded schedules and compared with a sequential run of the same build.",
  technique="seeded schedules over the real parallel checker, compared with a sequential reference run",
  rule="Workload: a generated program of 1-5 modules (classes, generics, mapped/conditional types, namespaces, imports) checked in parallel.",
  assumptions=["the sequential run of the same build is the reference: a defect that shows identically in both is invisible", "generated programs contain no recursive types (one fixed recursive program is the known finding)"], quick_s=40)

P("P02", "Concurrent queries are sequentially explainable",
  "When several threads query one program object at once (diagnostics, exports, definition and expression types, symbols, members, assignability), every query returns, none "
  "reports an internal error a sequential caller would not get, and every answer is one that some sequential order of those same queries on a fresh program gives.",
  ["schedules", "histories", "programs"],
  "Every program, every set of 2-4 caller threads with any lists of queries, every interleaving of them.",
  "Tests query from one thread, or from a few threads without controlling the interleaving.",
  [TC + "program/api/", TC + "program/mod.rs", TC + "db/", "types-ts-interned/src/store.rs"],
  [dict(name="one lock over the program state, body checking outside it on shared caches", where=TC + "program/api/")],
  [("queries", 1)],
  "Answers that differ from the check-first order are searched for in up to some hundred sequential orders before they count as unexplained.",
  technique="seeded interleavings of query threads, each answer checked against sequential histories",
  rule="Workload: 2-4 threads with 2-12 drawn queries each over one shared Program.",
  assumptions=["the explanation search is bounded: an answer that only a very long specific order explains would be reported (none met in the calibration runs)"])

P("P03", "Cancellation is prompt, all-or-nothing and forgotten",
  "A request in flight when the program is cancelled ends with its full answer or with a cancellation error, never a partial answer, an internal error or a hang; "
  "while cancelled, new checks are refused. Once cancellation is cleared - even while cancelled requests are still stopping - the program answers exactly as one on which those requests were never interrupted.",
  ["schedules", "crash_points", "histories"],
  "Every program, every instant of cancellation and of clearing it relative to the requests (checks, questions, snapshots) in flight from 1-3 threads, repeated up to three times.",
  "The tests cancel before a request or once at an uncontrolled instant; what must hold is about every intermediate state a cancellation can leave behind.",
  [TC + "program/api/", TC + "program/state/", TC + "check/hir_body.rs", TC + "db/"],
  [dict(name="shared cancellation flag polled while checking", where=TC + "program/api/cancellation.rs"), dict(name="partial analysis discarded on failure", where=TC + "program/api/")],
  [("cancel", 1)],
  "The cancellation instant is drawn over the whole execution of the requests; about 40% of the runs cancel in flight.",
  technique="seeded cancellation instants and schedules, compared with an uninterrupted program",
  rule="Fault: cancellation at a drawn step, 1-3 times per run; non-trivial runs have at least one preemption or an in-flight cancellation.",
  assumptions=["lag is bounded in simulated steps (generous: 30x a whole check), not in wall time"])

P("P04", "Any edit history equals a fresh program",
  "After any history of file edits, compiler-option changes, queries, concurrent requests and cancellations, a program answers every question (diagnostics, exports, definition types, "
  "body results, identifiers) exactly as a program freshly built from the final file texts and options.",
  ["histories", "schedules", "inputs"],
  "Every sequence of up to ten edits, option changes and (cancelled) multi-threaded requests over programs of 1-4 files with 2-4 versions each.",
  "Incremental tests replay a few fixed edit scripts from a single thread; stale state needs particular orders of edits, queries and interruptions.",
  [TC + "program/api/", TC + "db/", TC + "program/state/"],
  [dict(name="invalidation on edit and option change", where=TC + "program/api/"), dict(name="memoised queries keyed by inputs", where=TC + "db/")],
  [("edits", 1)],
  "The fresh program is built by the same code, so only history dependence is decided.",
  technique="seeded histories of edits, options, concurrent queries and cancellations, compared with a fresh program",
  rule="Workload: history of 2-9 steps; compared with a fresh build at drawn points and at the end.", assumptions=[])

P("P05", "Host failures are reported, contained and recoverable",
  "When the embedding host fails to read a file, does not resolve an import, panics or stalls inside a callback, the fallible request reports an error or degraded diagnostics: it does not "
  "panic, hang, claim failure without a host failure, or report the intact program's diagnostics for a file it could not read. Once the host works again and the program is reset "
  "(options set again), all answers equal those of a program whose host never failed.",
  ["fault_sequences", "schedules", "programs"],
  "Every sequence of failing, panicking and stalling host callbacks at any call, for requests from 1-3 threads.",
  "Tests use in-memory hosts that never fail half-way through an analysis.",
  [TC + "program/api/", TC + "program/state/", TC + "api.rs", TC + "db/"],
  [dict(name="panics caught and turned into errors at the API boundary", where=TC + "program/api/"), dict(name="partial analysis discarded on failure", where=TC + "program/api/")],
  [("hostfaults", 1)],
  "Host callbacks fail, panic or stall at drawn calls; recovery is compared with a never-failing run.",
  technique="fault injection into the host interface under seeded schedules",
  rule="Faults: host_file_text (error/panic/stall), host_resolve (none/panic/stall), others (panic/stall).", assumptions=["panics in the host unwind (panic=unwind)"])

P("P06", "Snapshots are schedule-independent and restore faithfully",
  "The serialised snapshot of a program does not depend on the schedule or worker count that produced it. A program restored from it, with no host able to provide anything, reports the diagnostics recorded "
  "in the snapshot, and answers the same to every query from any number of threads as a sequential restore does. A snapshot taken after edits restores the edited program, which can be queried and edited again.",
  ["schedules", "programs", "histories"],
  "Every program, with or without edits and a check before the snapshot, every schedule of the producing check and of 1-3 querying threads.",
  "The snapshot tests serialise once and restore once from a single thread.",
  [TC + "program/snapshot.rs", TC + "snapshot.rs", "types-ts-interned/src/store.rs"],
  [dict(name="sorted, content-addressed snapshot contents", where=TC + "snapshot.rs")],
  [("snapshot", 1)],
  "Bytes are compared with the sequential run's; restored answers with a sequential restore's.",
  technique="seeded schedules of snapshot creation and of queries on the restored program",
  rule="Workload: snapshot under schedule, JSON round trip, restore with a dead host, 1-3 threads query everything.", assumptions=[])

TI = "types-ts-interned/src/"
P("P07", "Interning is canonical under any interleaving",
  "When any number of threads intern types, shapes, objects, signatures and names into one store at once, equal types get one identifier in every thread, different types get different identifiers, identifiers never "
  "change, lookups return what was interned, the type order is total, and every call returns, even when fingerprints collide. Without collisions identifiers, order and display equal those of a "
  "single-threaded store and do not depend on the order in which members of unions, intersections, objects and overload sets were listed; a store restored from a snapshot keeps all of this.",
  ["schedules", "inputs", "configurations"],
  "Every set of type descriptions, every distribution over 2-4 threads, every interleaving, fingerprint functions with none, some or mostly collisions.",
  "Tests intern a few types from real threads; lock-order deadlocks and lost insertions need particular interleavings, and collisions never occur by themselves.",
  [TI + "store.rs", TI + "kind.rs", TI + "shape.rs", TI + "signature.rs", TI + "ids.rs"],
  [dict(name="entry-locked insertion with salted rehash", where=TI + "store.rs"), dict(name="canonical member ordering", where=TI + "store.rs")],
  [("typestore", 1)],
  "Identifiers from every thread are compared with each other and with a sequential store; identity must be a bijection.",
  technique="seeded interleavings of interning threads with injected fingerprint collisions, compared with a sequential store",
  rule="Workload: 20-120 generated type descriptions interned by every thread in its own random order with members permuted; 3/8 of the runs use colliding fingerprints.",
  assumptions=[], quick_s=25)

P("P08", "Shared relation and evaluation caches are transparent",
  "Whether a type is assignable, comparable or a strict subtype, the explanation given for it, and the evaluated form of a type are the same whether the caches are disabled, private or shared by several threads, whatever "
  "their capacity and shard count, what was asked before, and whether they are invalidated or cleared meanwhile. (For types whose definitions are not recursive.)",
  ["schedules", "histories", "configurations"],
  "Every list of questions from 2-4 threads over generated types and generic aliases, every cache configuration from disabled to a few hundred entries, every interleaving.",
  "Tests run fixed lists with two cache sizes; eviction, invalidation and sharing in combination are not reached.",
  [TI + "relate.rs", TI + "eval.rs", TI + "cache.rs"],
  [dict(name="relation cache keyed by types, relation and mode", where=TI + "relate.rs"), dict(name="evaluation caches keyed by type and substitution", where=TI + "eval.rs")],
  [("relate", 1)],
  "Every answer is compared with one computed alone on a fresh context.",
  technique="seeded interleavings and cache configurations, each answer compared with an isolated computation",
  rule="Workload: 10-60 questions over 20-70 generated types, asked in random order by 2-4 threads over shared caches.", assumptions=["recursive aliases are excluded: their normal form is cut off by depth limits and is not unique"], quick_s=25)

P("P09", "The sharded cache is a linearizable bounded map",
  "Under any concurrent use every cached key behaves like an atomic register whose value may vanish only by removal, clearing or, when the cache may be full, eviction: no stale, foreign or resurrected value is ever returned and a removed or overwritten value never comes back. "
  "The number of entries never exceeds the configured maximum (zero disables the cache), hit, miss and insertion counts account for every operation, and a cache with room neither evicts nor refuses an entry.",
  ["schedules", "histories", "configurations"],
  "Every history of up to some 50 operations on 1-8 keys by 2-4 threads, every capacity 0-24 and shard count 0-4.",
  "The tests are single-threaded except one smoke test; linearizability is about all interleavings.",
  [TI + "cache.rs"],
  [dict(name="one lock per shard, clock eviction", where=TI + "cache.rs")],
  [("clockcache", 1)],
  "Per-key histories are decided by a linearizability search; then bounds, statistics and single-threaded behaviour are checked.",
  technique="seeded interleavings, recorded histories checked for linearizability against a register model",
  rule="Workload: 2-14 operations per thread (insert, get, contains, remove, len, entries, clear).", assumptions=["histories of more than 26 operations on one key are not searched (counted as history_too_long)"], quick_s=20)

TH = "typecheck-ts-harness/src/"
P("P10", "Deadline cancellation is never early, late, repeated or stray",
  "A token registered with the timeout manager is cancelled exactly once when its deadline passes while its guard is held, however many registrations, earlier or later deadlines, expired deadlines, spurious wake-ups and slow "
  "tokens there are; it is never cancelled before the deadline, a second time, after its guard was dropped, or after the manager was dropped. Registering, releasing and dropping the manager always return, and managers do not disturb each other.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of registrations and releases by 1-4 threads with deadlines in the past, near and far, every interleaving with the timer thread, every pattern of spurious wake-ups and stalls.",
  "Unit tests register one or two deadlines in real time; missed wake-ups, early firing and races between release and expiry need particular interleavings and clock readings.",
  ["conformance-harness/src/timeout.rs"],
  [dict(name="one timer thread with a condition variable and a deadline queue", where="conformance-harness/src/timeout.rs")],
  [("timeouts", 1)],
  "The real manager and its thread run on the simulated clock; every token records when it was cancelled.",
  technique="seeded interleavings on a simulated clock with spurious wake-ups and stalls, invariants on every cancellation",
  rule="Workload: 1-4 threads, 1-8 registrations each, nested or not, some guards still held when the manager goes away.",
  assumptions=["lateness is judged against the simulated time other threads and injected stalls took"], quick_s=20)

P("P11", "A conformance run accounts for every test case",
  "A run of the type-checking conformance harness that returns a report lists every case of the suite (or shard) exactly once and in the same order for any number of workers, with totals, outcome counts, manifest verdicts and the pass/fail "
  "decision that follow from the individual results. Cases that meet no failure get the same result as in a sequential undisturbed run; every other case is reported as a mismatch that names its failure, never as a match.",
  ["schedules", "fault_sequences", "inputs"],
  "Every suite, manifest, shard, worker count and comparison mode; every sequence of disk, process and time-limit failures.",
  "Tests run small suites in which nothing fails; lost cases and wrong totals come from failures and worker interleavings.",
  [TH + "runner.rs", TH + "discover.rs", TH + "expectations.rs", "conformance-harness/src/"],
  [dict(name="worker pool with per-case time limits and one collected report", where=TH + "runner.rs")],
  [("conformance", 1)],
  "The report is recounted independently and compared case by case with a one-worker run in which nothing fails.",
  technique="seeded schedules, disk, pipe, process and reply faults around whole conformance runs; report recounted and compared with an undisturbed sequential run",
  rule="Workload: 1-10 generated cases, manifest, shard, compare mode (tsc, snapshot, none), 1-5 workers.",
  assumptions=["tsc is a simulated child process that answers, misbehaves, dies or hangs as drawn"])

P("P12", "Failures of tsc processes are contained",
  "When a tsc child process dies, answers garbage or half a reply, prints extra lines, reports a crash, hangs, answers slowly or cannot be started, only the cases it was serving are affected: such a request is tried again on a fresh "
  "process before its case is reported as crashed, no case ever receives the reply to another request, a hanging process is stopped at the time limit, the run finishes within its limits, and no child process is left running.",
  ["fault_sequences", "schedules"],
  "Every sequence of child failures at any request and any byte of the reply, with every interleaving of workers and any time limit.",
  "Tests use a real or no tsc; a process that fails in the middle of a request never occurs in them.",
  [TH + "tsc.rs", TH + "runner.rs", TH + "discover.rs"],
  [dict(name="pool of long-lived runner processes with retry and kill on timeout", where=TH + "runner.rs")],
  [("conformance", 1)],
  "Each case has a distinguishable reply, so a mixed-up or stale answer shows in the report; the simulator counts live children.",
  technique="fault injection into child processes, pipes and time under seeded schedules, replies compared per case",
  rule="Faults per request: exit, partial reply, garbage, extra line, crash reply, hang, delay, exit after reply, oversized line; spawn failures; pipe short transfers.",
  assumptions=["the child is a stand-in for node and tsc; the protocol and pool code are real"])

P("P13", "Success claimed means the whole result was delivered",
  "When minify-js, parse-js or the type-check command line exits with status 0, all its output has reached standard output or the output file, and it is the result for the complete input. Read, write, flush and disk-full failures end in a "
  "non-zero exit with a message; JSON error reports stay well-formed; no result is produced from input that could not be read. Interrupted and short transfers change nothing. (Failing directory listings and path lookups of the type-check command line are excluded.)",
  ["fault_sequences", "inputs", "crash_points"],
  "Every input and option combination, every sequence of failing, interrupted or short operations on standard streams and files, every disk capacity.",
  "The command-line tests run on healthy disks and pipes; a failure at the last flush or half-way through a file never happens there.",
  ["minify-js-cli/src/main.rs", "parse-js-cli/src/main.rs", "typecheck-ts-cli/src/main.rs"],
  [dict(name="output written and flushed before success is reported", where="minify-js-cli/src/main.rs")],
  [("minify", 1), ("parsecli", 1), ("tsccli", 1)],
  "The shipped main functions run as simulated processes; exit status, streams and files are compared with an undisturbed run.",
  technique="fault injection into simulated standard streams and files around the real programs, compared with an undisturbed run",
  rule="Faults: open, read, write, flush, ENOSPC, EPIPE, EINTR, short transfers, slow disk.", assumptions=["input files do not change while the program runs"])

P("P14", "Command time limits are honoured and never fake success",
  "A parse-js or type-check command that exceeds its time limit stops soon after the limit with a non-zero exit and a message saying so, whatever it was doing when the limit passed; one that finishes within the limit gives exactly the "
  "result of an unlimited run and is never stopped early. No partial or missing answer is presented as the result.",
  ["schedules", "crash_points", "inputs"],
  "Every input, every limit and every instant at which the limit passes, with stalls and slow threads.",
  "Tests use limits that never or immediately expire; the interesting instants lie in between.",
  ["parse-js-cli/src/main.rs", "typecheck-ts-cli/src/main.rs", "typecheck-ts/src/program/api/cancellation.rs", "parse-js/src/parse/"],
  [dict(name="timer thread sets a cancellation flag polled by the parser and checker", where="parse-js-cli/src/main.rs")],
  [("parsecli", 1), ("tsccli", 1)],
  "The clock rate is chosen so that the limit falls anywhere from far before to far after the end of the work.",
  technique="simulated clock placing the limit at seeded instants of the real programs, compared with an unlimited run",
  rule="Half of the runs have a limit between a twentieth and ten times the work.", assumptions=["promptness is bounded in simulated steps of the program's own work"])


P("P15", "Compiling the same text gives the same output",
  "Parsing, printing, JavaScript binding, lowering to HIR, minifying, optimising (typed and untyped) and decompiling a text give the same result - tree, symbols, identifiers, diagnostics and their order, basic blocks, optimiser steps, "
  "register assignment, output bytes - in every thread, for every hash seed, heap layout and schedule, whatever other texts are compiled before or at the same time.",
  ["schedules", "configurations", "inputs"],
  "Every text and option set, every process hash seed, every interleaving with 1-3 other compilations.",
  "Determinism tests repeat a few inputs in one process, where hash seeds mostly coincide and nothing else runs.",
  ["parse-js/src/lib.rs", "emit-js/src/lib.rs", "hir-js/src/lower.rs", "semantic-js/src/js/mod.rs", "minify-js/src/lib.rs", "optimize-js/src/lib.rs"],
  [dict(name="sorted traversals and content-derived identifiers", where="optimize-js/src/cfg/cfg.rs"), dict(name="stable name and body identifiers", where="hir-js/src/ids.rs")],
  [("pipeline", 1)],
  "Generated JavaScript and TypeScript texts go through all stages in 1-3 threads; every stage's full dump is compared with a sequential run under other hash seeds.",
  technique="seeded hash seeds, heap layouts and schedules over concurrent compilations, every stage's output compared with a sequential reference run",
  rule="Workload: 1-4 generated texts (statements, loops, closures, classes, types) through parse, emit, bind, lower, minify, optimise, decompile.",
  assumptions=["a stage that panics on an input has to panic alike in both runs; that it panics at all is not judged"], quick_s=40)

P("P16", "Front-end stages stop when cancelled, or give it all",
  "Cancellable parsing and lowering and the cancellable TypeScript binder, run with a cancellation flag that is never set, give exactly the result of the plain variants. Once the flag is set they stop within a small part of their work and "
  "say that they were cancelled or give the complete result, never a partial result, another error or a panic other than the cancellation one; a flag set before the start is honoured. Cancelling one run does not affect others. "
  "(The binder's caller has to check the flag itself.)",
  ["schedules", "crash_points", "inputs"],
  "Every text, every instant at which the flag is set relative to the work, 1-3 runs at once with flags of their own.",
  "Tests set the flag before the call.",
  ["parse-js/src/lib.rs", "parse-js/src/parse/mod.rs", "hir-js/src/lower.rs", "semantic-js/src/ts/binder.rs"],
  [dict(name="cancellation flag polled per token, node and symbol", where="parse-js/src/parse/mod.rs")],
  [("pcancel", 1)],
  "The flag is set at a drawn step of the work; about half of the runs cancel in flight.",
  technique="seeded cancellation instants and schedules over the real stages, compared with an undisturbed run",
  rule="Fault: one flag per run, set before the start, at a drawn step or never.",
  assumptions=["promptness is bounded by a third of the work plus 300000 steps, judged in single-threaded runs"], quick_s=20)

P("P17", "The optimiser debugger answers exactly the program sent",
  "Every complete request to the optimiser debugger's HTTP service is answered with the functions, basic blocks, optimiser steps and symbols of exactly the program and mode it carried, or with that program's diagnostics and status 400, "
  "however its bytes are split and delayed, however large it is, and whatever other requests and connections are served at the same time. A request that breaks off, is not MessagePack or has another content type never gets a result and "
  "does not disturb others. Snapshot mode exits with status 0 only if the same result, complete, reached standard output or the output file; failing reads and writes end in a non-zero exit with a message. "
  "(Programs on which the compiler itself panics only end their own connection.)",
  ["schedules", "inputs", "crash_points"],
  "1-4 simulated connections with 1-3 requests each, every split of the bytes, every schedule of 1-4 runtime workers, break-off at any byte; for snapshot mode every failing, short or interrupted read and write.",
  "Its tests call the handler once at a time with whole bodies on a working connection.",
  ["optimize-js-debugger/src/main.rs", "optimize-js/src/lib.rs"],
  [dict(name="stateless handler behind a body extractor", where="optimize-js-debugger/src/main.rs"), dict(name="stable, sorted response form", where="optimize-js-debugger/src/main.rs")],
  [("service", 3), ("dump", 2)],
  "The shipped router, extractor and handler run under real axum, hyper and tokio; connections are in-memory streams of drawn size driven by simulated clients.",
  technique="seeded schedules, byte splits, broken connections and I/O failures over the real service, compared with one request at a time and with the compiler itself",
  rule="Faults: request broken off at a drawn byte (closed or half closed), malformed requests, tiny connection buffers, read/write/open failures in snapshot mode.",
  assumptions=["the TCP listener and epoll driver are replaced by in-memory streams; the argument dispatch in main is mirrored by the harness"], quick_s=30)

PURE = ("A pure single-threaded function of its input: it has no concurrency, time, I/O, randomness or other party that could make two runs on the same input differ, so a schedule or a fault has "
        "nothing to act on and searching inputs would be plain fuzzing, not this technique. ")

N("P51", "Parsing and emitting round-trip",
  "Every program the parser accepts is printed by the emitter as text that parses again to the same tree, in canonical and minified form, and no input makes the parser or printer panic or loop.",
  ["inputs"], "Every byte sequence, dialect and source type.", "Tests hold a fixed corpus.", ["parse-js/src/parse/mod.rs", "emit-js/src/lib.rs"],
  [dict(name="one AST shared by parser and printer", where="emit-js/src/lib.rs")],
  PURE + "What depends on schedules is covered elsewhere: determinism across threads and cancellation (P15, P16), I/O and time limits of parse-js (P13, P14).")

N("P52", "Minified programs behave like their source",
  "The output of minify-js observably behaves like the input program for every input it accepts: no captured or shadowed name changes meaning, exports keep their names, TypeScript erasure keeps run-time semantics.",
  ["inputs"], "Every program, mode and option.", "Tests compare fixed outputs.", ["minify-js/src/lib.rs"],
  [dict(name="scope-aware renaming", where="minify-js/src/lib.rs")],
  PURE + "Delivery of the output is P13, schedule independence P15.")

N("P53", "Optimised programs behave like their source",
  "For every program optimize-js accepts, the decompiled program computes the same effects and results as the source for every pass order and analysis.",
  ["inputs"], "Every program.", "Tests compare fixed outputs.", ["optimize-js/src/lib.rs"], [dict(name="SSA passes", where="optimize-js/src/lib.rs")],
  PURE + "Schedule independence of compilation is P15.")

N("P54", "Assignability is a sound preorder",
  "Type relations are reflexive, transitive where TypeScript is, respect any, unknown, never, unions and intersections and agree with the TypeScript compiler.",
  ["inputs"], "Every pair of types.", "Tests hold examples.", ["types-ts-interned/src/relate.rs"], [dict(name="structural relation", where="types-ts-interned/src/relate.rs")],
  PURE + "What caches and threads could change about the answers is P08.")

N("P55", "HIR identifiers survive unrelated edits",
  "Definition and body identifiers are derived from paths and content, so that an edit elsewhere in a file keeps them, and never collide.",
  ["inputs"], "Every file and edit.", "Tests hold examples.", ["hir-js/src/ids.rs"], [dict(name="content-derived identifiers", where="hir-js/src/ids.rs")],
  PURE + "That a program's identifiers equal those of a fresh program after any history is part of P04.")

N("P56", "Lexical scoping is resolved as the language says",
  "Every reference resolves to the binding ECMAScript and TypeScript scoping rules prescribe, including hoisting, temporal dead zones, with, eval and declaration merging.",
  ["inputs"], "Every program.", "Tests hold examples.", ["semantic-js/src/js/mod.rs", "semantic-js/src/ts/mod.rs"], [dict(name="two-pass scope resolution", where="semantic-js/src/js/mod.rs")],
  PURE + "Cancellation of the TypeScript binder is P16, schedule independence P15.")

N("P57", "Script engine heap, budget and task safety",
  "The vm-js garbage collector never frees a reachable value, fuel, deadline and interrupt budgets stop every script, and the runtime runs microtasks and timers in specified order.",
  ["inputs", "histories", "schedules"], "Every script, budget and host.", "Tests run short scripts.", ["vm-js/src/lib.rs", "runtime-js/src/lib.rs", "webidl-vm-js/src/lib.rs", "test262-semantic/src/lib.rs"],
  [dict(name="mark-sweep heap with rooted handles and a fuel budget", where="vm-js/src/lib.rs")],
  "vm-js does not compile at the pinned commit (nor do runtime-js, webidl-vm-js and test262-semantic, which depend on it), so there is no code to run in the simulator.")

