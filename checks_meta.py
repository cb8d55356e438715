"""How each property is decided: words for MANIFEST.json and DESIGN.md."""
_SCHED = ("generated schedules of real threads under a deterministic scheduler (preemption at every synchronisation call, "
          "and between the library's memory accesses) with virtual time, ASan/UBSan, and TSan on the same schedules")
_TRUST = "Trusts the compilers, sanitizers, the engine in lib/ and the reference model in the harness."

def _p(oracle, technique, note, bounds="", level="exploration"):
    return {"oracle": oracle, "technique": technique, "note": note + " " + _TRUST, "bounds": bounds, "level": level}

META = {
 "C01": _p("a nested `std::map` walked by a path splitter written for the harness, compared over the whole tree after every step",
           "property-based testing: stateful sequences against a nested-map model", "Random search over operation histories, both build types.",
           "trees deeper than about 200 levels (destruction recurses; documented limit), values aliased into a node their own path replaces"),
 "C02": _p("the model tree of the original at the time of cloning, for both sides after both were edited, and allocation balance",
           "property-based testing: random trees, clone, edit both sides, compare with separate models", "Random search, heap under ASan.", "same depth limit as C01"),
 "C03": _p("a model tree per variable; moved-from sources are only destroyed or assigned",
           "property-based testing: move/assign histories against a model, including sources nested in targets", "Random search; every ordered pair of types is also drawn directly.", "self-move, which the class does not define"),
 "C04": _p("a reference order on model trees (types by rank, then contents), and the order laws on the library's own six answers",
           "property-based testing: related triples, reference order plus algebraic laws", "Random search biased to near-equal values (copies, one leaf changed, one ulp).", "NaN, which a value must not hold"),
 "C05": _p("bit comparison, and integer classification computed from the bits in 128-bit arithmetic",
           "property-based testing: edge-biased numbers, round trip and reference classification; death cases in children", "Random search over bit patterns with edge bias."),
 "C06": _p("a map of registrations and a map of sets, kept by the harness",
           "property-based testing: stateful histories against two maps", "Random search; misuse runs in a child that must stop.", "registered paths one of which is a prefix of another (the stored tree cannot hold both)"),
 "C07": _p("the expected text assembled while the format is generated; for invalid formats an independent recogniser",
           "property-based testing: formats generated from a grammar with the expected output alongside", "Random search over formats and arguments, both build types; exact-size heap buffers under ASan."),
 "C08": _p("each argument rendered independently (own integer printer, `%g` through a different call) and concatenated",
           "property-based testing: differential rendering of every argument type", "Random search.", "long double texts beyond 20 bytes cannot arise with %Lg"),
 "C09": _p("bytes read back with plain system calls, and the model of the directory",
           "property-based testing: write/read round trips, and reads with misreported sizes and short reads injected at system-call level", "Random search in a scratch directory.", "files over a few megabytes"),
 "C10": _p("the set of contents a reader may see at each point (old or a whole new one), as a register history for several writers",
           "fault injection by generated kill points, failing calls and interleavings at system-call granularity (seccomp stepper)",
           "Random search over calls, kill points and interleavings; one write is also watched at every call.", "power loss and page-cache loss: the property speaks about processes"),
 "C11": _p("which injected failures must be reported, which contents may remain, and the directory's listing",
           "property-based fault injection: the k-th call of a kind fails with a random error, real resource limits", "Random search over call kinds, positions, errors, short counts.",
           "errors for which a retry is legitimate (EINTR, EAGAIN) may also be reported as success if the outcome is right"),
 "C12": _p("a reference recogniser; balance and pairwise independence of the 122 random bits; distinctness across threads and forks",
           "property-based testing: reference predicate, enumeration of single-byte mutations, statistical relations with generous limits",
           "A sound generator fails the statistics with probability below 1e-12 per run.", "secrecy of the generator"),
 "C13": _p("the expected lines rendered by the harness from level, file, line and text",
           "property-based testing: logging histories against a model", "Random search; fatal messages run in a child."),
 "C14": _p("the file's bytes after each call; for failing streams the number of messages that fit",
           "property-based testing of sinks with failing streams; " + _SCHED, "Random search over contents, failures and schedules.",
           "line-buffered streams that fail (glibc may report success for the failed flush)"),
 "C15": _p("a model of which object has been examined, and so of the first operation that must stop the program",
           "property-based testing: generated programs over statuses against an ownership/examination model; death cases in children", "Random search over programs."),
 "C16": _p("the model's value or error object per variable, live-object counts, and an interpreter for the macro programs",
           "property-based testing: generated programs against a model and an interpreter", "Random search over programs."),
 "C17": _p("the class hierarchy as a table in the harness",
           "enumeration of the class matrix plus generated move histories against the declared hierarchy", "The class matrix is exhaustive for the harness's 27 classes, three of them with further bases."),
 "C18": _p("a model of every pointer cell: null or not, target, examined or not",
           "property-based testing: pointer histories against a model; misuse in children", "Random search over ten pointer types.", "whether a copied nullable counts as examined (not documented; both accepted where the library differs by pointer kind)"),
 "C19": _p("liveness and address per object, kept by the harness",
           "property-based testing: object/weak pointer histories against a model, ASan, reused memory", "Random search over hierarchies with virtual and multiple bases.", "destruction concurrent with use (the class is not thread-safe)"),
 "C20": _p("the arguments each call must see and the lifetime of every bound object, kept by the harness",
           "property-based testing: generated binds, copies, moves, calls and target lifetimes against a model", "Random search over 106 argument patterns."),
 "C21": _p("the count kept by the harness; a stuck or early-released thread; use after destruction by ASan",
           "property-based testing: " + _SCHED, "Random search over programs and schedules."),
 "C22": _p("a reference queue ordered by (due time, post order)",
           "property-based testing: histories against a reference queue; " + _SCHED, "Random search over histories and schedules."),
 "C23": _p("a log of posts, starts and ends in virtual time checked against rules (once, not early, order, limit)",
           "property-based testing: " + _SCHED, "Random search over workloads, clocks and schedules.", "weak memory effects beyond data races (TSan reports the races themselves)"),
 "C24": _p("the scheduler: a state in which no thread can ever run while a task is runnable",
           "property-based testing: " + _SCHED, "Random search over rendezvous workloads and schedules."),
 "C25": _p("index counts, calls before the return, visibility of writes both ways, stuck schedules",
           "property-based testing: " + _SCHED, "Random search over workloads and schedules.", "applying from as many pool tasks at once as there are threads (a deadlock by design)"),
 "C26": _p("the destructor returns, nothing runs after it, every task object is released once",
           "property-based testing: " + _SCHED, "Random search over pool states and schedules.", "destroying the pool from its own task; posting from outside during destruction"),
 "C27": _p("a reference timer per timer object",
           "property-based testing: timer histories against a reference timer", "Random search, nested operations in tasks included."),
 "C28": _p("metamorphic relations between hashes, and statistics with generous limits",
           "property-based testing: metamorphic relations and collision statistics", "A well-mixing 64-bit hash fails with probability below 1e-9 per run.", "equality of distinct but equal-hashing elements"),
 "C29": _p("the standard algorithm on a copy", "property-based testing: differential against the standard library", "Random search."),
 "C30": _p("the callable's counted captures; the determined bytes of the string", "property-based testing: model of the determined contents", "Random search."),
 "C31": _p("the wrapped type itself", "property-based testing: differential against the wrapped type", "Random search over ten alias types."),
 "C32": _p("an explicit stack of deferred actions; counters of constructions, destructions and evaluations",
           "property-based testing: generated control-flow programs against a stack model; racing first accesses", "Random search."),
}

for _i in (list(range(1, 10)) + [12, 13] + list(range(15, 21)) + list(range(27, 33))):
    META["C%02d" % _i]["note"] += " Cases also run in 2 to 4 threads at once, under ThreadSanitizer too."
