"""Per property: how many runs, and what the evidence says about them. (runs, wall cap in seconds) per tier."""

SIM_RULE = ("one run per seed: the seed decides the workload (matrices, sizes, orders, field), how every seam answers, where faults strike and "
            "which thread goes on at every seam (in the fine build also between seams and at atomic operations). Non-trivial: at least 10 steps; distinct: different digest of workload and event log")
SIM_STEP = "one step is one call of the library into a seam: an entry pulled from a column, a comparison, a filtration or basis query, a hash-map key request"
SIM_ASSUME = [
    "memory is sequentially consistent: one thread runs at a time; between seams threads change in the runs of the fine build only",
    "the executable reference model (dense elimination over the same field) is right",
    "sampled, not exhaustive: matrices of up to about a dozen columns per dimension (rarely up to some thousand), up to four threads",
]
STUB = "user-supplied parts (column source, filtration function, index comparison, coefficient arithmetic, bases): simulator implementations; thread scheduler: one runs at a time, chosen by the seed; waits for locks: another thread runs; hash-map keys: from the seed; clocks and sleeping: simulated time"


def sim(quick, chunk, real, rule=SIM_RULE, assume=(), stub=STUB, cap=(200, 1500), scale=40):
    return {"quick": (quick, cap[0]), "thorough": (quick * scale, cap[1]), "chunk": chunk, "rule": rule, "step": SIM_STEP,
            "real": real, "stub": [stub], "assumptions": SIM_ASSUME + list(assume)}


PROPS = {
    "C01": sim(60000, 500, ["phlite: columns, fields, matrices, reduction::standard, diagram read-off"]),
    "C02": sim(240000, 500, ["phlite: columns, fields, matrices, reduction::clearing and ::standard, cycle query, lazy R and V columns"]),
    "C03": sim(60000, 250, ["phlite", "phlite_rips: indexing, boundary and coboundary columns, basis construction"],
               assume=["distance matrices are symmetric with zero diagonal and finite non-negative entries"]),
    "C04": sim(300000, 1000, ["phlite: matrix adaptors, combinators, implementors"]),
    "C05": sim(400000, 1000, ["phlite: column cache, and the matrices it wraps"]),
    "C06": sim(400000, 2000, ["phlite: heap columns, filtered entries, fields"]),
    "C07": sim(60000, 250, ["phlite", "phlite_rips", "phlite_grpph"],
               assume=["a failure unwinds (panic = unwind, the default), and is not a failure to allocate"]),
    "C10": sim(50000, 250, ["phlite", "phlite_grpph: indexing, boundary and coboundary columns, basis construction"],
               assume=["digraphs have no self-loops; edge times are non-negative or infinite"]),
    "C08": {"quick": (100000, 240), "thorough": (2000000, 1500), "chunk": 500,
            "rule": "one run per seed: a process of the shipped tool; the seed decides matrix, spelling (whitespace, missing and surplus cells, junk), "
                    "arguments, how reads and writes are cut and fail, which allocation fails and the randomness of hash maps. "
                    "Non-trivial: at least 5 intercepted calls; distinct: different digest of workload and outcome",
            "step": "one step is one intercepted call: read of standard input, write of standard output, allocation",
            "real": ["phlite_rips_cli as shipped (release build): argument and CSV parsing, reduction, report"],
            "stub": ["read, write, malloc, getrandom and the clocks at the C library boundary, driven by the plan of the seed"],
            "assumptions": ["the Rust standard library reaches the system through the C library's symbols",
                            "the reference Rips barcode (dense elimination over Z/2 on the full flag complex) is right",
                            "mostly at most 7 points, one input in ten up to 40, one in a hundred up to 140"]},
    "C09": {"quick": (15000, 240), "thorough": (600000, 1500), "chunk": 100,
            "rule": "one run per seed, in a forked process: the seed decides digraphs, calls per thread, logging configuration, what handlers do "
                    "(raise, call back into the module, hand over to another thread) and which thread goes on. "
                    "Non-trivial: at least 5 steps; distinct: different digest of workload and event log",
            "step": "one step is one log record delivered, one argument converted, or one call ended",
            "real": ["phlite_grpph extension module as shipped (release build)", "pyo3, pyo3-log", "CPython and its logging package"],
            "stub": ["thread scheduler: one runs at a time, changed at log records, argument conversions and calls as the seed decides", "log handlers and filters", "clocks, for the module's own code", "number types of the arguments"],
            "assumptions": ["threads change only inside Python code: the extension does not release the interpreter lock while it computes",
                            "digraphs of at most 9 nodes with edges, up to 338 in all"]},
}
