#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
C = [
 ("C01", T + "seeded delivery, scheduling and reference elimination for the standard reduction",
  "Seeded sampling of matrices, deliveries and interleavings of up to four users; every returned V is certified column by column against an independent elimination. Trusts the reference elimination and that threads can only interact at seams."),
 ("C02", T + "seeded delivery, scheduling and reference elimination for the clearing reduction and later lazy reads",
  "As C01, for chain complexes split by dimension; later reads of V and R are interleaved and compared with the certified columns."),
 ("C03", T + "concurrent users of one Rips matrix, checked against a reference flag complex",
  "Seeded sampling of distance matrices (ties, duplicates, few points) and interleavings; barcode, bases and every column compared with a directly computed flag complex."),
 ("C04", T + "interleaved open column reads over random matrix expressions, checked against their denotation",
  "Random expressions over all combinators; cursors opened, advanced and abandoned in seeded order on up to four threads, each delivered column compared with the dense denotation."),
 ("C05", T + "interleaved, nested and failing reads of a cached matrix, checked against the wrapped one",
  "Counts computations per column, injects failures at seam calls inside a computation, and re-reads; nested reads come back into the cache from the wrapped matrix."),
 ("C06", T + "histories of heap column operations with failing sources, checked against a linear-combination model",
  "Random histories over all fields; the model is a sorted map of sums."),
 ("C07", T + "failure injection at every kind of seam during reads and reductions, with bystanders and repeats",
  "A dry run counts the seam calls of an operation, then failures are injected at seeded instants; the operation has to fail with exactly that failure, bystanders and repeats have to be right."),
 ("C08", T + "the shipped tool under a simulated operating system boundary (reads, writes, allocation)",
  "The release binary runs with its C library read, write, malloc and getrandom decided by the seed; outcome compared with a reference parser and barcode."),
 ("C09", T + "the shipped Python module under a seeded thread scheduler and faulty logging handlers",
  "The release extension module in CPython, one thread at a time; bars and cycles compared with a reference grounded path homology."),
 ("C10", T + "concurrent users of one shared digraph, checked against reference path homology",
  "Seeded digraphs and interleavings at every edge-time query; columns, bases and barcode compared with a dense reference."),
]
checks = [dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p}", technique=t, level="exploration", level_note=n) for p, t, n in C]
NA = [
 ("C11", "Field arithmetic is a pure function of its operands: no schedule, clock, I/O, fault or history enters it, so there is nothing to simulate. (Every simulated run checks each operation it makes against an independent model as a by-product, but that is not claimed.)"),
 ("C12", "Encoding and decoding a simplex index is a pure function of its input, with nothing a scheduler or fault injector could decide."),
 ("C13", "A statement about memory use; simulation decides what is computed, not how much memory it takes."),
 ("C14", "The Python matrix wrapper is private and ends in todo!(): no reduction can reach it, so no execution of it can be simulated."),
 ("C15", "Overflow is decided by the input alone (and by the build profile); no schedule, fault or history enters it."),
]
d = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes="No hooks: every seam is one the code already has (traits, closures, the C library boundary, the logging package). python3 check.py Cxx --replay FILE plays a recorded execution again.")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w").write(json.dumps(d, indent=1) + "\n")
