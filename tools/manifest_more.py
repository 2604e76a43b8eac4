PAIR = ("TLA+ contract (Crunch.tla, Pair.tla) checked by TLC; conformance: TLC-enumerated histories driven through both buffers "
        "in lockstep, recorded lockstep executions validated by TLC")
MORE = {
    "C12": (PAIR, "Every TLC-enumerated in-range history of the bounded alphabet, sweeps of single calls and randomly generated ones are run on a Buffer and a "
                  "MiniBuffer of each version in lockstep; results, contents, positions and capacities are compared after every call "
                  "by TLC (or by a Go pre-selector whose selections TLC judges). Bounded, not a proof."),
    "C17": (PAIR, "Every TLC-enumerated history, before and after the reset, of the bounded alphabet and randomly generated ones are run on "
                  "a reset and a new buffer in lockstep, both judged by TLC. Bounded, not a proof."),
    "C13": ("TLA+ linearizability checking by TLC (Lin.tla) of histories recorded from the real code under an exhaustive bounded-preemption "
            "scheduler; lock design model (Conc.tla, refuted variants; proved for all sizes by TLAPS in LockProof.tla); race detector on concurrent pairs",
            "The library's statements and lock operations are made scheduling points (instrumented copy through a build overlay); all "
            "schedules with at most 2 preemptions of every pair of calls (sampled beyond 60 positions), random schedules of longer "
            "programs, coarse schedules of programs with large calls, and parallel runs of the code as it is; each distinct history is judged "
            "by TLC against Crunch.tla. Data races are those the Go race detector reports."),
    "C14": ("TLA+ model of locking disciplines (LockUse.tla) checked by TLC incl. liveness (and proved by TLAPS in LockUseProof.tla); conformance: every call's operations on the "
            "buffer's lock recorded from the real code and validated by TLC (LockTrace.tla), bracketed sections validated by Lin.tla",
            "Every MiniBuffer method of v1 and v2, returning and panicking, is called with the lock held and not held on the library with "
            "recording locks and on the library as it is; sections of several goroutines under a bounded-preemption scheduler."),
    "C11": ("TLA+ contract of storage ownership (Heap.tla), a concrete memory model checked against it by TLC (HeapMC.tla, eight wrong "
            "designs refuted); conformance: TLC-enumerated histories replayed into the code, recorded memory validated by TLC (HeapTrace.tla)",
            "All histories of 3 calls (thorough: 4) over ten shapes of inputs and every kind of client object are replayed into all versions "
            "and kinds with the whole memory of every object inspected after every call; random longer histories are judged by TLC, further "
            "ones pre-selected in Go. Bounded, not a proof."),
    "C15": ("TLA+ contract (Crunch.tla) as arbiter of the regenerated package: TLC-enumerated behaviours replayed into it, its recorded "
            "executions validated by TLC (Trace.tla, HeapTrace.tla); exported declarations compared by TLC (Api.tla)",
            "The real generator is run over copies of the v3 sources with and without the shipped outputs; the package it leaves is compiled "
            "in place of the shipped one and put through the machinery of C01-C11 and C18, as is the shipped one where the texts differ."),
    "C16": ("TLA+ specification of the generator (Gen.tla) checked by TLC (GenMC.tla; other ways of writing outputs refuted); conformance: "
            "TLC-enumerated directories and random histories of runs and edits on the real generator, validated by TLC (GenTrace.tla)",
            "Each of the 60 valid directives, 30 invalid ones, every directory of a bounded set, bulk directories and randomly edited ones are run through "
            "the real generator in scratch directories as an unprivileged user; whole directory listings are compared. Bounded, not a proof."),
    "C19": ("TLA+ specification of several buffers (World.tla), a concrete memory model of two buffers checked by TLC (WorldMC.tla, four "
            "wrong designs refuted); conformance: TLC-enumerated interleavings replayed into the code beside each buffer alone, recorded "
            "interleavings and per-goroutine histories validated by TLC",
            "All interleavings of 4 calls (and 5 of a smaller alphabet) on two buffers of every combination of kinds, and random interleavings on up to four "
            "buffers, with every buffer observed after every call and run again alone; goroutines with a buffer each under the race "
            "detector, their first calls made at the same moment. Bounded, not a proof."),
    "C20": ("TLA+ specification of the memory a call may touch (Foot.tla) and of ways of carrying calls out byte by byte or in words, checked by "
            "TLC (FootMC.tla, seven wrong designs refuted); conformance: executions of the code behind fences (unmapped and read-only pages), "
            "with every memory access they die of judged by TLC (Trace.tla)",
            "Systematic sweeps of single calls and random histories with storage and lists at the end or the start of mapped memory, read-only while "
            "a call runs that must not write to them. An access outside what is granted is seen where it leaves the mapping or the protection "
            "differs; storage that the library allocates itself cannot be fenced. Bounded, not a proof."),
    "C21": ("TLA+ specification of what calls may cost and keep (Cost.tla) and of buffer implementations with their allocations, references and "
            "goroutines, checked by TLC (CostMC.tla, nine wrong designs refuted); conformance: measurements of the code judged by TLC (CostTrace.tla)",
            "Every sort of call is measured at both ends of a 64 MB buffer (allocation, and time as the best of several goes), long lists, resizing, "
            "tens of thousands of calls of every sort, tens of thousands of dropped buffers; lists, slices and storage carry finalizers that must run. "
            "Margins are wide (64 KB, 1.5 ms, 128 KB in use), so smaller costs and leaks are not seen. Bounded, not a proof."),
}
