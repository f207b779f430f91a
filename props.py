"""What each property's check builds and runs. See DESIGN.md."""
QUEUE_RULE = ("A case is one queue type (variant), one strict weak order (natural, reversed, coarse, table of ranks with ties) "
  "and one random history of push, range push, pop, top, decreaseTop, in-place change of the top and draining; "
  "non-trivial: at least 4 elements at once and at least 2 pops. Distinct: by the hash of all random choices.")
PAIR_RULE = ("A case is one PairQueue configuration (plain, fat, tracked or non-retirable pair data), one order of pairs with ties "
  "and one random history of column additions and pops%s; non-trivial: at least 3 columns added and %s.")
FINDER_RULE = ("A case is one or more divisor finders (of 24 instantiations: list or tree, masks, packing, leaf size, exponent type), options, "
  "variables, an order of monomials and one random history of inserts, range inserts, removals, queries, rebuilds, clearing, reordering.")
PQSIM = ["src/pqsim/Simulator.cpp", "src/pqsim/Item.cpp", "src/pqsim/Model.cpp"]
def DBG(name, files, focus, cases, repo_srcs=[]):
  return {"name": name, "files": files, "focus": focus, "cases": cases, "repo_srcs": repo_srcs, "san": "address,undefined",
    "flags": ["-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all", "-DMATHIC_DEBUG", "-DMATHIC_SLOW_DEBUG", "-DDEBUG"]}
HASH_RULE = "A case is one hash function (good, weak, constant), one table size and load, and one random history of inserts and lookups"
def FINDER(focus, cases): return {"name": "finder", "files": ["finder", ("finder_kinds", 8), "alloc"], "focus": focus, "cases": cases}
def WITH_HUGE(stages, cases):
  """The last stage again on large structures, with the same executable."""
  return stages + [dict(stages[-1], name="huge", reuse=True, args=["--huge", "1"], cases=cases, thorough=cases * 40, case_cpu=100)]
PROPS = {
  "P01": {"rule": QUEUE_RULE, "stages": WITH_HUGE([{"files": ["q_heap"], "focus": 0, "cases": 60000}], 64)},
  "P02": {"rule": QUEUE_RULE, "stages": WITH_HUGE([{"files": ["q_tour"], "focus": 0, "cases": 60000}], 64)},
  "P03": {"rule": QUEUE_RULE, "stages": WITH_HUGE([{"files": [("q_geo", 8)], "focus": 0, "cases": 60000}], 96)},
  "P04": {"rule": QUEUE_RULE, "stages": WITH_HUGE([{"files": ["q_set"], "focus": 0, "cases": 60000}], 64)},
  "P05": {"rule": "As for P01 with entry keys and coefficients combined by deduplicate; non-trivial: at least 2 combinations and 2 pops.",
    "stages": WITH_HUGE([{"files": ["q_heap", "q_tour", "q_set", ("q_geo", 8)], "focus": 1, "cases": 60000}], 96)},
  "P06": {"rule": "As for P01 with enumeration, stopped enumeration, clear and move construction mixed in; non-trivial: at least 3 elements at once, more than 4 pushes.",
    "stages": WITH_HUGE([{"files": ["q_heap", "q_tour", ("q_geo", 8)], "focus": 2, "cases": 60000}], 64)},
  "P07": {"rule": "As for P01 with longer histories, counting comparisons; non-trivial: at least 32 elements at once.",
    "stages": WITH_HUGE([{"files": ["q_heap", "q_tour", ("q_geo", 8)], "focus": 3, "cases": 60000}], 64)},
  "P08": {"rule": PAIR_RULE % ("", "3 pops"), "stages": WITH_HUGE([{"files": ["pairqueue"], "focus": 0, "cases": 40000}], 48)},
  "P09": {"rule": PAIR_RULE % (" and retirements", "3 pops and 1 retirement"), "stages": WITH_HUGE([{"files": ["pairqueue"], "focus": 1, "cases": 50000}], 48)},
  "P10": {"rule": PAIR_RULE % (" with exceptions injected into callbacks", "an exception was thrown, or 3 pops and 1 retirement"),
    "stages": WITH_HUGE([{"files": ["pairqueue"], "focus": 2, "cases": 50000}], 48)},
  "P11": {"rule": FINDER_RULE + " Lists only; non-trivial: at least 3 entries, a query with and one without a hit.", "stages": WITH_HUGE([FINDER(11, 16000)], 48)},
  "P12": {"rule": FINDER_RULE + " Lists only, many removals; non-trivial: at least 3 entries and a removal, clearing or rebuild.", "stages": WITH_HUGE([FINDER(12, 16000)], 48)},
  "P13": {"rule": FINDER_RULE + " Trees only; non-trivial: as for P11.", "stages": WITH_HUGE([FINDER(13, 16000)], 48)},
  "P14": {"rule": FINDER_RULE + " Trees only, many removals; non-trivial: as for P12.", "stages": WITH_HUGE([FINDER(14, 16000)], 48)},
  "P15": {"rule": FINDER_RULE + " Two to four finders undergo the same history; extra queries go to single ones; non-trivial: as for P11.", "stages": WITH_HUGE([FINDER(15, 12000)], 48)},
  "P17": {"rule": FINDER_RULE + " One to three finders are fed the same monomials, minimizing; non-trivial: 4 fed, 2 kept. Also: histories of the models of the divisor simulation, "
    "whole simulations and simulations with one wrong answer; non-trivial: 4 fed and 2 kept, 5 inserts and 5 queries, a wrong answer given.",
    "stages": WITH_HUGE([FINDER(17, 10000)], 32) + [{"name": "divsim", "files": ["divsim"], "repo_srcs": ["src/divsim/Simulation.cpp"], "cases": 12000}]},
  "P18": {"rule": FINDER_RULE + " Entries that know whether they are alive are counted after every operation, and allocated bytes at the end; non-trivial: as for P12.", "stages": WITH_HUGE([FINDER(18, 16000)], 48)},
  "P34": {"rule": FINDER_RULE + " Operations fail in between: callbacks and receivers throw, memory runs out, equal entries are refused; non-trivial: at least 1 failed and 3 more operations came after it, 3 entries.", "stages": [FINDER(34, 40000)]},
  "P16": {"rule": "A case is one mask calculator (exponent type, width, variable count, default or rebuilt from ranges) and a set of monomials, all pairs tested, or two monomials of extreme exponents; "
    "non-trivial: at least 2 pairs that divide and 1 that does not, or a pair that divides.", "stages": WITH_HUGE([{"files": ["divmask"], "cases": 40000}], 64)},
  "P19": {"rule": HASH_RULE + "; non-trivial: at least 3 keys inserted, 1 inserted again, lookups with and without success.", "stages": WITH_HUGE([{"files": ["hashtable"], "focus": 0, "cases": 5000}], 64)},
  "P20": {"rule": HASH_RULE + ", many removals and resets; non-trivial: at least 3 keys inserted and one removed and inserted again, or a reset.", "stages": WITH_HUGE([{"files": ["hashtable"], "focus": 1, "cases": 8000}], 64)},
  "P21": {"rule": "A case is one history of adding columns and setting bits; non-trivial: at least 3 columns, 2 bits set and 1 cleared.", "stages": WITH_HUGE([{"files": ["bittri"], "cases": 3000}], 48)},
  "P22": {"rule": "A case is a set of names with shared prefixes, a registration order and many lookups; non-trivial: at least 2 names, an exact and an abbreviating lookup.", "stages": WITH_HUGE([{"files": ["cli"], "focus": 22, "cases": 20000}], 96)},
  "P23": {"rule": "A case is a parser with actions and options and some command lines; non-trivial: a line accepted, one rejected and one with options.", "stages": WITH_HUGE([{"files": ["cli"], "focus": 23, "cases": 20000}], 96)},
  "P24": {"rule": "A case is a few parameters given arguments (valid, near-valid, random bytes); non-trivial: at least 2 accepted and 1 rejected.", "stages": [{"files": ["cli"], "focus": 24, "cases": 20000}]},
  "P25": {"rule": "A case is a parser with random actions, options and descriptions whose help is printed; non-trivial: help printed at least twice.", "stages": WITH_HUGE([{"files": ["cli"], "focus": 25, "cases": 20000}], 64)},
  "P26": {"rule": "A case is a message of random words, blanks and line breaks with a prefix; non-trivial: several words, and a line is broken.", "stages": WITH_HUGE([{"files": ["text"], "focus": 26, "cases": 60000}], 64)},
  "P27": {"rule": "A case is a random table of columns; non-trivial: at least 2 columns and 3 cells.", "stages": WITH_HUGE([{"files": ["text"], "focus": 27, "cases": 60000}], 64)},
  "P28": {"rule": "A case is some numbers (boundary-biased) in every printed form; non-trivial: at least 2 numbers that are grouped, have a unit or form a ratio.", "stages": [{"files": ["text"], "focus": 28, "cases": 60000}]},
  "P29": {"rule": "A case is a history of readings, resets and prints of a timer under a simulated clock; non-trivial: at least 2 readings and time passed; rarely the real clock.", "stages": [{"files": ["text"], "focus": 29, "cases": 60000}]},
  "P30": {"rule": "A case is one structure (queue, pair queue, divisor finder, hash table, bit triangle) of flat entries and one random history, what it allocates being counted; "
    "non-trivial: at least 10 entries or columns (finders 5, pair queue 20 pairs).", "stages": [{"files": ["memuse", ("finder_kinds", 8), "alloc"], "focus": 30, "cases": 8000}]},
  "P31": {"rule": "A case is one event history of the simulator (kind, parameters, seed, range of rand) recomputed by a reference queue, or driven through 1 to 4 library queues twice, "
    "or through a queue with one planted fault; non-trivial: at least 6 events and 3 elements; at least 3 spans; the fault was reached and rejected.",
    "stages": [{"files": ["pqsim"], "repo_srcs": PQSIM, "cases": 7000}]},
  "P33": {"rule": "A case is one structure (queue, pair queue, hash table, bit triangle) of flat entries and one random history, in which allocations fail at random points of the operations; "
    "non-trivial: an operation ran out of memory and entries were popped or added afterwards.",
    "stages": [{"files": ["faults", "alloc"], "focus": 33, "cases": 20000}]},
  "P35": {"rule": "A case is one hash table under a spreading hash function with phases of thousands of operations on uniformly drawn keys (insertion, lookup, removal, mixtures, resets); "
    "comparisons, hash computations and memory are counted; non-trivial: at least 600 entries at once, 100 operations on known and 100 on unknown keys.",
    "stages": WITH_HUGE([{"files": ["hashcost"], "cases": 4000}], 48)},
  "P36": {"rule": "A case is one divisor finder of 800 and more random monomials in 4 to 14 variables, with random options, inserted singly or in bulk; tests, exponents read and comparisons are counted; "
    "non-trivial: some queries have divisors and some have multiples.",
    "stages": WITH_HUGE([{"files": [("findcost", 6)], "cases": 1200}], 32)},
  "P37": {"rule": "A case is one pair queue and phases of column additions, pops and retirements, what it computes, keeps and compares being counted; "
    "non-trivial: at least 10 columns with pairs and 20 pops.",
    "stages": WITH_HUGE([{"files": ["paircost"], "cases": 10000}], 48)},
  "P38": {"rule": "A case is one structure (queue, divisor finder, bit triangle) and phases of hundreds of operations that fill, empty, clear, churn or rebuild it, what it allocates being counted; "
    "non-trivial: many more operations than entries at once (queues 10, finders 3 times), bit triangles at least 40 columns.",
    "stages": [{"files": ["memkeep", ("finder_kinds", 8), "alloc"], "focus": 38, "cases": 6000}]},
  "P39": {"rule": "A case is a few randomly configured structures whose names are compared pairwise and whose contents are printed, or a few errors that are raised; "
    "non-trivial: two configurations differ, two errors, or three columns.",
    "stages": [{"files": ["names", ("finder_kinds", 8), "alloc"], "repo_srcs": ["src/divsim/Simulation.cpp"], "focus": 39, "cases": 20000}]},
  "P40": {"rule": "A case is one structure (queue, pair queue, divisor finder, mask calculator, hash table, bit triangle, column printer, command line parser) and one random history, "
    "performed once alone and once with another instance in use between the operations and during callbacks; non-trivial: at least 10 operations, the other instance used more than 5 times.",
    "stages": [{"files": ["twins", ("finder_kinds", 8), "alloc"], "focus": 40, "cases": 20000}]},
  "P41": {"rule": "A case is one structure (queue, pair queue, divisor finder, mask calculator, hash table) made from a configuration that counts its copies and calls and goes away afterwards, "
    "and one random history, for half of the cases repeated with options set through the accessor; non-trivial: at least 8 operations and more than 20 calls of the configuration.",
    "stages": [{"files": ["config", ("finder_kinds", 8), "alloc"], "focus": 41, "cases": 20000}]},
  "P42": {"rule": "A case is one structure (queue, pair queue, divisor finder, mask calculator, hash table, bit triangle, column printer, command line parser) per thread, two to four threads, and one random history each, "
    "performed once by one thread after the other and once by all at the same time, under ThreadSanitizer; non-trivial: at least 10 operations per thread.",
    "technique": "differential random testing of concurrent histories with shrinking (own engine), under ThreadSanitizer",
    "stages": [{"files": ["threads", ("finder_kinds", 8)], "focus": 42, "san": "thread", "cases": 6000, "fuzz": 0,
                "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:abort_on_error=0:die_after_fork=0"}}]},
  "P32": {"rule": "A case is a case of one of the harnesses of the other properties, in a build with both kinds of debug assertions and address and undefined-behaviour sanitizers; non-trivial as there.",
    "stages": [
      DBG("queues", ["q_heap", "q_tour", "q_set", ("q_geo", 8)], 4, 6000),
      DBG("pairqueue", ["pairqueue"], 4, 6000),
      DBG("finders", ["finder", ("finder_kinds", 8), "alloc"], 32, 5000),
      DBG("hashtable", ["hashtable"], 2, 1500),
      DBG("bittri", ["bittri"], 1, 800),
      DBG("divmask", ["divmask"], 0, 8000),
      DBG("cli", ["cli"], 32, 8000),
      DBG("text", ["text"], 32, 20000),
      DBG("divsim", ["divsim"], 0, 2500, ["src/divsim/Simulation.cpp"]),
      DBG("pqsim", ["pqsim"], 0, 1500, PQSIM),
    ]},
}
