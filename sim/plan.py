"""What is built and how much is executed for each property."""

_SIM = "-DCATIMA_SIM -DCATIMA_SIM_DATAPOINTS=60 -DCATIMA_SIM_STORAGE="
BUILDS = {
    "ship": {"flags": ""},
    "mid": {"flags": _SIM + "60"},
    "small": {"flags": _SIM + "4"},
    # nothing kept in registers: every variable that is read before it is set shows what was on the stack
    "small-raw": {"flags": _SIM + "4", "cmake": ["-DCMAKE_CXX_FLAGS_RELEASE=-O0 -DNDEBUG"]},
    "small-acc": {"flags": _SIM + "4 -fsanitize=thread", "cmake": ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"]},
    "mid-acc": {"flags": _SIM + "60 -fsanitize=thread", "cmake": ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"]},
    "ship-acc": {"flags": "-fsanitize=thread", "cmake": ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"]},
    "mid-nospl": {"flags": _SIM + "60", "cmake": ["-DSTORE_SPLINES=OFF"]},
    "mid-noet": {"flags": _SIM + "60", "cmake": ["-DET_CALCULATED_INDEX=OFF"]},
    "mid-none": {"flags": _SIM + "60", "cmake": ["-DSTORE_SPLINES=OFF", "-DET_CALCULATED_INDEX=OFF"]},
    "ship-nospl": {"flags": "", "cmake": ["-DSTORE_SPLINES=OFF"]},
    "ship-noet": {"flags": "", "cmake": ["-DET_CALCULATED_INDEX=OFF"]},
    "ship-none": {"flags": "", "cmake": ["-DSTORE_SPLINES=OFF", "-DET_CALCULATED_INDEX=OFF"]},
}
_TS = ["-fsanitize=thread"]
EXES = {
    "hist": {"sources": ["hist_main.cpp", "ops.cpp", "base.cpp"]},
    "cont": {"sources": ["cont_main.cpp", "base.cpp"]},
    "io": {"sources": ["io_main.cpp", ("simio.cpp", ["-fno-threadsafe-statics"]), "base.cpp", ("{repo}/bin/catima_calculator.cpp", ["-Dmain=calculator_main"]),
                       ("{repo}/utils/generator.cpp", ["-Dmain=generator_main", "-Dbethek_lindhard=sim_lindhard", "-Dbethek_lindhard_X=sim_lindhard_X"])],
           "link": ["-ldl"]},
    # instrumented objects and the library come first, so that shared inline functions are the instrumented ones
    "thr": {"sources": [("thr_main.cpp", _TS), ("ops.cpp", _TS), ("integ_ops.cpp", _TS)], "late": [("simsched.cpp", ["-fno-threadsafe-statics"]), "base.cpp"],
            "lib": "{b}-acc", "link": ["-ldl", "-lpthread"]},
}

# jobs: (simulator, build, executions quick, executions thorough, chunk)
PLAN = {
    "C01": {"jobs": [("hist", "small", 1200, 6000, 16), ("hist", "mid", 800, 4000, 16), ("hist", "ship", 200, 900, 5)]},
    "C02": {"jobs": [("hist", "small", 1000, 5000, 16), ("hist", "mid", 600, 3000, 16), ("hist", "ship", 150, 700, 5)]},
    "C03": {"jobs": [("hist", "small", 800, 4000, 16), ("hist", "mid", 600, 3000, 16), ("hist", "ship", 150, 700, 5)]},
    "C04": {"jobs": [("hist", "small", 2400, 12000, 24), ("hist", "mid", 1200, 6000, 16), ("hist", "ship", 200, 900, 5)]},
    "C05": {"jobs": [("hist", "small", 2400, 12000, 24), ("hist", "mid", 1000, 5000, 16), ("hist", "ship", 250, 1200, 5)]},
    "C06": {"jobs": [("thr", "mid", 22500, 60000, 60), ("thr", "ship", 1500, 4000, 10)]},
    "C07": {"jobs": [("thr", "small", 11250, 40000, 40), ("thr", "mid", 6250, 20000, 30), ("thr", "ship", 500, 1600, 5)]},
    "C09": {"jobs": [("cont", "ship", 250000, 1200000, 1000)]},
    "C10": {"jobs": [("io", "mid", 20000, 60000, 80), ("io", "ship", 1250, 4000, 10)]},
    "C11": {"jobs": [("io", "ship", 50000, 200000, 200)]},
    "C12": {"jobs": [("thr", "mid", 60000, 250000, 250)]},
    "C17": {"jobs": [("thr", "small", 6000, 24000, 40), ("thr", "mid", 4000, 16000, 40)]},
    "C20": {"jobs": [("thr", "small", 6000, 24000, 40), ("thr", "mid", 3000, 12000, 40)]},
    "C22": {"jobs": [("thr", "small", 6000, 24000, 40), ("thr", "mid", 3000, 12000, 40)]},
    "C21": {"jobs": [("thr", "small", 1600, 16000, 20), ("thr", "mid", 160, 1600, 8)]},
    "C18": {"jobs": [("io", "mid", 22500, 90000, 100), ("io", "ship", 2500, 8000, 10)]},
    "C19": {"jobs": [("hist", "small", 4000, 16000, 24), ("hist", "mid", 1000, 4000, 16), ("hist", "ship", 250, 1000, 5)]},
    "C08": {"jobs": [("hist", "small", 2400, 12000, 24), ("hist", "mid", 1000, 5000, 16), ("hist", "ship", 250, 1200, 5)]},
    "C13": {"jobs": [("hist", "mid", 600, 2500, 10), ("hist", "ship", 100, 400, 4)],
            "alt": {"mid": [("exact", "hist", "mid-nospl"), ("index", "hist", "mid-noet"), ("both", "hist", "mid-none")],
                    "ship": [("exact", "hist", "ship-nospl"), ("index", "hist", "ship-noet"), ("both", "hist", "ship-none")]}},
    "C14": {"jobs": [("hist", "small", 1200, 6000, 16), ("hist", "mid", 500, 2500, 8), ("hist", "ship", 200, 900, 4)]},
    "C15": {"jobs": [("hist", "small", 10000, 50000, 100), ("hist", "small-raw", 4000, 16000, 40), ("hist", "ship", 4000, 16000, 40)]},
    "C16": {"jobs": [("hist", "small", 3000, 14000, 40), ("hist", "mid", 1000, 4000, 16), ("hist", "ship", 300, 1300, 5)]},
}

_REAL = ["real: the complete library, built from the working tree by its own build files"]
_STUB = ["simulated: operator new and delete, order of clients, contents of fresh memory",
         "simulated sizes: builds small and mid use 60 table points (and 4 slots in small) instead of 600; build small-raw is small without optimisation; build ship is unchanged"]
COMPONENTS = {p: _REAL + _STUB for p in PLAN}
_THR = ["real: the complete library, compiled with access instrumentation, and real threads of which one runs at a time",
        "simulated: scheduler (switch points are memory accesses), mutexes, once flags, static initialisation guards, operator new and delete"]
COMPONENTS["C06"] = COMPONENTS["C07"] = COMPONENTS["C17"] = COMPONENTS["C20"] = COMPONENTS["C22"] = _THR + _STUB[1:]
COMPONENTS["C21"] = ["real: the complete library, compiled with access instrumentation"] + _STUB
COMPONENTS["C12"] = _THR[:1] + ["real: integrator headers and global integrators; generated: integrands", _THR[1]]
COMPONENTS["C09"] = ["real: Material, Layers and element data, unchanged build", "simulated: operator new and delete"]
COMPONENTS["C10"] = ["real: bin/catima_calculator.cpp with main renamed, the library, the JSON parser, the C++ stream library",
                     "simulated: results of open, read and seek calls on the configuration file (a scratch file), its size while it is read"]
COMPONENTS["C11"] = ["real: include/catima/convert.h, utils/generator.cpp with main renamed, the library, the C++ stream library",
                     "simulated: results of open, write and close calls on the written file (a scratch file)",
                     "stubbed: bethek_lindhard and bethek_lindhard_X inside the generator (cheap formulas)"]
COMPONENTS["C18"] = ["real: include/catima/convert.h, the library, the C++ stream library, the C locale functions",
                     "simulated: free space of the disk in failing exports; generated: a locale with decimal comma"]
ASSUMPTIONS = {p: ["floating point arithmetic is deterministic on this machine",
                   "a fresh forked process that has not called the library stands for a fresh process"] for p in PLAN}
for _p in ("C06", "C07", "C12", "C17", "C20", "C22"):
    ASSUMPTIONS[_p] = ASSUMPTIONS[_p] + ["memory is sequentially consistent; weaker orders are not explored", "the instrumentation reports every access of the library to memory that is not on the own stack"]
for _p in ("C10", "C11", "C18"):
    ASSUMPTIONS[_p] = ["files are accessed through the interposed calls of the C library (as the C++ streams do)"]
FAULTS = {
    "C01": ["displacements", "resets", "default_edits", "c_option_edits", "repeated_calls"],
    "C02": ["displacements", "resets", "default_edits"],
    "C03": ["displacements", "resets", "default_edits", "c_option_edits"],
    "C04": ["allocation_failures", "failure_points"],
    "C05": ["displacements", "resets"],
    "C08": ["copy_reads_after_displacement"],
    "C06": ["preemptions", "blocked_on_locks"],
    "C07": ["preemptions", "blocked_on_locks"],
    "C09": ["allocation_failures", "appends_stopped_early", "aliasing_calls"],
    "C10": ["hard_faults", "benign_faults", "files_cut", "reached_open_error", "reached_read_error", "reached_read_early_end", "reached_read_short", "reached_read_interrupt",
            "reached_read_shrink", "reached_read_grow", "reached_seek_error", "reached_seek_shrink", "reached_seek_grow"],
    "C11": ["hard_faults", "benign_faults", "files_overwritten", "reached_open_error", "reached_write_error", "reached_write_short", "reached_write_interrupt", "reached_close_error"],
    "C12": ["preemptions", "exceptions_thrown_through"],
    "C13": ["displacements"],
    "C19": ["setting_changes"] + ["setting_" + x for x in ("cloc", "cxxloc", "flags", "state", "errno", "umask", "cwd", "sig", "var", "rand", "ask", "clock", "pid", "round")],
    "C17": ["preemptions", "blocked_on_locks"],
    "C20": ["preemptions", "blocked_on_locks"],
    "C21": ["displacements", "resets", "repeated_calls"],
    "C22": ["preemptions", "blocked_on_locks", "allocation_failures"],
    "C18": ["c_locale_changes", "cxx_locale_changes", "errno_changes", "failing_exports", "calculations_between", "objects_changed_between", "locale_unavailable"],
    "C14": ["displacements", "calls_with_displacements"],
    "C15": ["heap_contaminations", "stack_contaminations", "status_flag_changes"],
    "C16": ["allocation_failures"],
}
_RING = "the sequence of hits, misses and resets per combination"
RULES = {
    "C01": "seeded history over a pool of nearly equal arguments; non-trivial: has a look-up of a stored combination and at least two new ones; distinct: " + _RING,
    "C02": "seeded history with edits of the default configuration; non-trivial: has a hit and at least two misses; distinct: " + _RING,
    "C03": "seeded history of C and C++ calls; non-trivial: has a hit and at least two misses; distinct: " + _RING,
    "C04": "seeded history with failing allocations; non-trivial: at least one failure fired; distinct: sequence of (call, failure point, outcome)",
    "C05": "seeded sequence of store operations; non-trivial: a hit and a displacement occurred; distinct: " + _RING,
    "C08": "seeded history of copies, references and displacements; non-trivial: a copy was read after its entry was displaced; distinct: sequence of reads with their state",
    "C06": "seeded thread programs and schedule; non-trivial: at least two switches between threads; distinct: the calls with the executed schedule (thread, number of accesses)",
    "C07": "seeded store content, thread programs and schedule; non-trivial: at least two switches between threads; distinct: the calls with the executed schedule",
    "C09": "seeded container operations, with every allocation of swept operations failing; non-trivial: a failure fired; distinct: sequence of operations",
    "C10": "seeded configuration file and fault plan; non-trivial: a fault fired, the file was cut, or a list of energies was compared; distinct: fault plan and number of layers and energies",
    "C11": "seeded stack and fault plan; non-trivial: a fault fired; distinct: fault plan and kind of writer",
    "C12": "seeded trees of integrations and schedule; non-trivial: nesting, an exception or two switches occurred; distinct: the trees with the executed schedule",
    "C17": "seeded programs of threads with own objects and schedule; non-trivial: at least two switches between threads; distinct: the programs with the executed schedule",
    "C20": "seeded programs of one thread with the global state and others without it, and schedule; non-trivial: at least two switches between threads; distinct: the programs with the executed schedule",
    "C22": "as C20, with allocations failing in seeded steps of the threads; non-trivial: at least two switches between threads; distinct: the programs with the failing steps and the executed schedule",
    "C21": "seeded history before counted calls; non-trivial: a call was counted after other steps; distinct: the list of steps",
    "C18": "seeded sequence of exports and changes of process-wide settings; non-trivial: an export after a change, a failed export or another export; distinct: sequence of steps",
    "C19": "seeded sequence of calls and changes of process-wide settings; non-trivial: has a change and a call; distinct: sequence of changes and kinds of calls",
    "C13": "seeded history executed by four builds; non-trivial: a hit and more than three misses; distinct: " + _RING,
    "C14": "seeded stacks and lists from seeded store states; non-trivial: an entry was displaced during a call; distinct: " + _RING,
    "C15": "seeded calls in contaminated memory; non-trivial: a call was compared; distinct: sequence of calls and contamination kinds",
    "C16": "seeded repeated sequences; non-trivial: memory was sampled; distinct: the step list",
}
LEVELS = {p: "exploration" for p in PLAN}
LEVELS["C04"] = LEVELS["C09"] = "fault_enumeration"

_H = "deterministic simulation: seeded call histories on the real library, results compared with the same call in a fresh process"
TECHNIQUE = {p: _H for p in PLAN}
TECHNIQUE["C04"] = "deterministic simulation with fault injection: every allocation of a call fails in turn inside seeded histories"
TECHNIQUE["C05"] = "deterministic simulation: seeded store operations against a first-in-first-out model"
TECHNIQUE["C06"] = "deterministic simulation: seeded thread schedules at single memory accesses of the instrumented library, results compared with the same call alone"
TECHNIQUE["C07"] = TECHNIQUE["C06"] + ", store compared before and after"
TECHNIQUE["C09"] = "deterministic simulation with fault injection: container histories against a model, every allocation failing in turn"
TECHNIQUE["C10"] = "deterministic simulation with fault injection: file call results of the real calculator under a seeded fault plan"
TECHNIQUE["C11"] = "deterministic simulation with fault injection: file call results of the real writers under a seeded fault plan"
TECHNIQUE["C12"] = "deterministic simulation with fault injection: nested, throwing and preempted integrations compared with the same integration alone"
TECHNIQUE["C17"] = "deterministic simulation: seeded thread schedules at single memory accesses, each thread compared with the same thread alone"
TECHNIQUE["C20"] = TECHNIQUE["C17"]
TECHNIQUE["C22"] = "deterministic simulation with fault injection: seeded thread schedules with allocations failing inside the threads, each thread compared with the same thread alone"
TECHNIQUE["C21"] = "deterministic simulation: seeded call histories on the instrumented library, work counted in memory accesses and calls, compared with a fresh process"
TECHNIQUE["C18"] = "deterministic simulation with fault injection: seeded sequences of exports, locale changes and failed exports, files compared with a fresh process"
TECHNIQUE["C19"] = "deterministic simulation: seeded changes of process-wide settings between calls, settings compared around every call, results with a fresh process"
TECHNIQUE["C08"] = "deterministic simulation: seeded histories with poisoned freed memory, held copies and references re-read later"
TECHNIQUE["C13"] = "deterministic simulation: the same seeded history in four builds, results compared"
TECHNIQUE["C15"] = "deterministic simulation with fault injection: seeded contents of fresh heap and stack memory"
TECHNIQUE["C16"] = "deterministic simulation with fault injection: live byte accounting of the simulated heap over repeated seeded sequences"

_PURE = "a function of one input; no history, schedule or fault takes part, so there is nothing to simulate. "
NOT_APPLICABLE = {
    "N01": _PURE + "Needs a numerical reference or proof.",
    "N02": _PURE + "Needs a numerical reference or proof.",
    "N03": _PURE + "Needs interval analysis or input fuzzing.",
    "N04": _PURE + "Needs comparison with the exact calculation over the table.",
    "N05": _PURE + "Needs a numerical error bound.",
    "N06": _PURE + "Needs one scan over the tables.",
    "N07": _PURE + "Needs a grammar-based input comparison.",
}
_LATER = "simulator not built yet"
for _p in ("C06", "C07", "C09", "C10", "C11", "C12"):
    if _p not in PLAN:
        NOT_APPLICABLE[_p] = _LATER
