#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Standard reduction is exact however columns are delivered",
  "However a square matrix delivers the entries of each column it is asked for (any order, differently on every read, a coefficient spread over repeated rows) and however concurrent users of that matrix interleave, the standard reduction terminates with an invertible matrix V, upper-triangular in the column order, such that the non-zero columns of R = DV have pairwise different lowest entries in the row filtration order. "
  "The diagram read off pairs exactly each such lowest row with its column, and lists as essential exactly the columns that are zero in R and are not themselves a paired row, whichever read-off direction is requested. "
  "This holds over every coefficient field provided.",
  ["inputs", "schedules", "histories"],
  "all square sparse matrices with a column basis and row filtration, all delivery orders/groupings per read, all interleavings of concurrent users, all fields",
  "one 8-column Z2 matrix delivered in one fixed order by one user is all the unit tests reduce",
  ["phlite/src/reduction/standard.rs", "phlite/src/columns.rs", "phlite/src/fields.rs", "phlite/src/matrices/mod.rs", "phlite/src/matrices/combinators.rs"],
  [("left-to-right reduction with low_inverse", "phlite/src/reduction/standard.rs"), ("diagram read-off", "phlite/src/reduction/standard.rs"), ("heap column pivots", "phlite/src/columns.rs")],
  ["the returned V read column by column", "product(D, V)", "the returned diagram"])

p("C02", "Clearing reduction is exact and its lazy V and R read the same for everyone",
  "For every matrix whose square is zero, split by dimension and reduced in the documented dimension order, the clearing reduction yields, under any delivery of entries and any interleaving of users, an invertible upper-triangular V with R = DV reduced, the same diagram as the standard reduction, and a cycle query that is true exactly when the column of R is zero. "
  "Columns of V and of R read afterwards, by any number of interleaved or concurrent readers, are always those same columns.",
  ["inputs", "schedules", "histories"],
  "all chain complexes split by dimension (boundary or coboundary direction, any contiguous dimension range), all delivery schedules, all interleavings of users and readers, all fields",
  "the tests check the number of bars on one 4-point complex and never read V or R back",
  ["phlite/src/reduction/clearing.rs", "phlite/src/matrices/adaptors.rs", "phlite/src/matrices/combinators.rs", "phlite/src/columns.rs"],
  [("clearing: V_i = R_j for a pair (i,j)", "phlite/src/reduction/clearing.rs"), ("sub-basis view per dimension", "phlite/src/matrices/adaptors.rs"), ("reversed bases", "phlite/src/matrices/adaptors.rs")],
  ["the returned V and product(D, V)", "the returned diagram", "the cycle query"],
  [("reduction columns", "a column is stored reduced, or as a pointer to the column that kills it", "phlite/src/reduction/clearing.rs")])

p("C03", "Vietoris-Rips matrices give the right barcode to every concurrent user",
  "Any number of users reducing or reading one shared Vietoris-Rips boundary or coboundary matrix, over any coefficient field and with their steps interleaved arbitrarily, obtain the persistent homology barcode of the Rips filtration up to the requested maximum dimension (0 included); boundary and reversed coboundary, standard and clearing reduction all agree. "
  "Every column read, with or without filtration values, is the simplicial (co)boundary of that simplex with each simplex valued at its diameter.",
  ["inputs", "schedules", "configurations"],
  "all finite symmetric distance matrices with zero diagonal, all maximum dimensions whose simplices fit the index type, all fields, all interleavings of users",
  "the tests use one 4-point square over Z2, one user, maximum dimension 1 or 2, and count bars",
  ["phlite_rips/src/lib.rs", "phlite_rips/src/homology.rs", "phlite_rips/src/cohomology.rs"],
  [("simplex indexing", "phlite_rips/src/lib.rs"), ("basis enumeration and sorting", "phlite_rips/src/lib.rs"), ("lazy coboundary enumeration", "phlite_rips/src/cohomology.rs"), ("lazy boundary", "phlite_rips/src/homology.rs")],
  ["diagrams and filtration values of the matrices", "columns of the matrices"])

p("C04", "Interleaved lazy reads of composed matrices always give the denoted column",
  "Every lazy matrix built from others (product, sum, reversal and its inverse, consolidation, change of column index, attached filtration or basis, restriction to a dimension, sharing through references or smart pointers) yields, for each column read, exactly the column of the matrix it denotes, with consistent filtration values and basis order. "
  "This holds for any number of column reads open at once, advanced in any interleaving and abandoned at any point, on one thread or several, and equality of two matrices on a column is judged accordingly.",
  ["inputs", "schedules", "histories", "programs"],
  "all expressions over the combinators and adaptors, all interleavings and abandonments of open reads, all delivery schedules of the leaf matrices",
  "the tests read a few fixed columns to the end, one at a time, of expressions of depth at most two",
  ["phlite/src/matrices/adaptors.rs", "phlite/src/matrices/combinators.rs", "phlite/src/matrices/implementors.rs", "phlite/src/matrices/mod.rs"],
  [("lazy product and sum", "phlite/src/matrices/combinators.rs"), ("reverse/unreverse, consolidate, sub-basis adaptors", "phlite/src/matrices/adaptors.rs"), ("stored matrices", "phlite/src/matrices/implementors.rs")],
  ["entries yielded by open column reads", "basis elements and filtration values"])

p("C05", "A column cache is transparent, computes once, and survives failed reads",
  "A matrix with cached columns is indistinguishable from the matrix it wraps (columns, filtration, basis), for any interleaving of open, nested or abandoned reads, including reads of the cached matrix made while another of its columns is being read or computed. "
  "Each column is computed by the wrapped matrix at most once, unless computing it fails, in which case nothing partial is retained and the next read computes it afresh.",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "all interleavings of overlapping, nested and abandoned reads, all failure instants inside the wrapped matrix, all wrapped matrices",
  "the column cache has no test at all (the source says so)",
  ["phlite/src/matrices/adaptors.rs", "phlite/src/matrices/mod.rs"],
  [("interior-mutable column cache", "phlite/src/matrices/adaptors.rs")],
  ["entries yielded by cached reads", "reads that reach the wrapped matrix"],
  [("cache", "columns computed so far", "phlite/src/matrices/adaptors.rs")])

p("C06", "A heap column always stands for the sum of what its history put in it",
  "After any history of insertions, pivot removals, pivot queries, partially consumed or abandoned drains, and insertions cut short by a failing source, a heap column stands for exactly the linear combination inserted minus the terms removed. "
  "The pivot it reports is always the greatest row, by filtration value and then row order, whose total coefficient is non-zero, with that total and filtration value, and is absent exactly when the sum is zero; draining yields the non-zero terms in strictly descending order.",
  ["histories", "fault_sequences", "crash_points"],
  "all operation histories over any number of heap columns, all cancellation instants of drains, all failure instants of the source of an insertion",
  "the tests perform at most four operations on a column over Z2, and none is abandoned or fails",
  ["phlite/src/columns.rs", "phlite/src/fields.rs"],
  [("coalescing pop of the pivot", "phlite/src/columns.rs"), ("entry ordering", "phlite/src/columns.rs")],
  ["pivots returned", "drained terms"],
  [("heap", "uncoalesced terms ordered by (filtration, row)", "phlite/src/columns.rs")])

p("C07", "A failing user-supplied part never yields a result nor poisons later ones",
  "If a part supplied by the user (column source, filtration function, coefficient arithmetic, index comparison, digraph times) fails by unwinding at any instant of a column read or a reduction, that operation fails with that very failure and never returns a result. "
  "Other users running at that time are unaffected, and everything shared stays usable: repeating the operation without the failure gives the correct result.",
  ["fault_sequences", "crash_points", "schedules"],
  "all instants at which a user-supplied callback can fail inside any library operation, any sequence of such failures followed by a retry, any interleaving with other users",
  "no test makes a callback fail",
  ["phlite/src/reduction/standard.rs", "phlite/src/reduction/clearing.rs", "phlite/src/matrices/adaptors.rs", "phlite/src/columns.rs", "phlite_rips/src/cohomology.rs", "phlite_grpph/src/coboundary.rs"],
  [("reductions own their working state", "phlite/src/reduction/clearing.rs"), ("cache filled only with complete columns", "phlite/src/matrices/adaptors.rs")],
  ["outcome of the failing operation", "outcome of its retry and of concurrent operations"])

p("C08", "The Rips command-line tool never reports success with a wrong or partial result",
  "However the operating system delivers standard input and accepts standard output (short reads and writes, interruptions, I/O errors, early end of input, full disk, closed pipe, failing allocations), the Rips command-line tool exits successfully only if it has written in full the basis sizes and the barcode of the square distance matrix spelled by the bytes it received, up to the requested dimension (default 1): every essential class and every finite bar longer than 0.01. "
  "Input that stops short of a square matrix or cannot be read makes it fail, while short reads and short or interrupted writes never do.",
  ["inputs", "fault_sequences", "crash_points", "configurations"],
  "all distance matrices in CSV, all requested dimensions, all fault sequences of the reads, writes and allocations the process makes",
  "the command-line tools are compiled but never run by the tests",
  ["phlite_rips/src/main.rs", "phlite_rips/src/lib.rs", "phlite_rips/src/cohomology.rs", "phlite/src/reduction/clearing.rs"],
  [("CSV input, every row and number must parse", "phlite_rips/src/main.rs"), ("report printing, failing on a failed write", "phlite_rips/src/main.rs")],
  ["exit status and bytes written to standard output"])

p("C09", "GrPPH from Python: right bars and cycles under threads and logging faults",
  "For every weighted digraph without self-loops (weights non-negative or infinite), the Python functions return the grounded persistent path homology barcode, and the variant with representatives also returns one cycle per finite bar of degree 1, which appears at the birth and becomes a boundary exactly at the death of its bar. "
  "Interleaved calls from several Python threads, calls made from inside a logging handler, any logging configuration, and handlers that raise never change any result.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all weighted digraphs, all interleavings of Python threads at the points where the interpreter lock is released, all re-entrant calls and exceptions from log handlers, all log levels",
  "the Python functions have no test; the Rust tests below them use one cycle and one complete digraph",
  ["phlite_grpph/src/lib.rs", "phlite_grpph/src/coboundary.rs", "phlite_grpph/src/boundary.rs", "phlite/src/reduction/clearing.rs", "phlite/src/reduction/standard.rs"],
  [("shortest-path filtration", "phlite_grpph/src/lib.rs"), ("translation of diagrams and representatives", "phlite_grpph/src/lib.rs"), ("log calls re-entering Python", "phlite_grpph/src/lib.rs")],
  ["return values of the two Python functions"])

p("C10", "GrPPH matrices over a shared digraph are exact for every concurrent user",
  "Any number of users building, reading and reducing grounded path homology matrices over one shared user-supplied digraph filtration, over any coefficient field and with their steps interleaved at every query of the filtration, obtain the grounded persistent path homology barcode; standard and clearing reduction of the reversed coboundary agree. "
  "Boundary and coboundary matrices are transposes of each other, the boundary of a boundary is zero, and the filtration values delivered with a column are those of the cells.",
  ["inputs", "schedules", "configurations"],
  "all finite digraphs with filtration times and grounding edge sets, all fields, all interleavings of users at filtration queries and coefficient operations",
  "the tests check bar counts for one directed cycle and one complete digraph over Z2 and print one coboundary column",
  ["phlite_grpph/src/coboundary.rs", "phlite_grpph/src/boundary.rs"],
  [("primary bridges and long squares", "phlite_grpph/src/coboundary.rs"), ("basis of nodes and grounded edges", "phlite_grpph/src/coboundary.rs"), ("boundary of the three kinds of 2-cell", "phlite_grpph/src/boundary.rs")],
  ["diagrams, columns and filtration values of the matrices"])

p("C11", "The provided coefficient types are fields",
  "Addition, multiplication, additive and multiplicative inverse of every provided coefficient type satisfy the axioms of the field it names, with zero represented by absence.",
  ["inputs"], "all elements of Z2, Z3, Z5, Z7, Z11, Z13 and the rationals",
  "the tests check a few sums and products in Z2 and Z3 only",
  ["phlite/src/fields.rs"], [("field arithmetic and inverse tables", "phlite/src/fields.rs")], ["results of the operators"])

p("C12", "Simplex indices encode simplices one-to-one",
  "Encoding a non-empty increasing list of points as a simplex index and decoding it returns the same list, and different simplices get different indices, whenever the encoding fits the index type.",
  ["inputs"], "all increasing vertex lists and numbers of points", "the test round-trips two lists",
  ["phlite_rips/src/lib.rs"], [("base n+1 encoding", "phlite_rips/src/lib.rs")], ["encode/decode round trip"])

p("C13", "Memory stays proportional to the reduction matrix, not the complex",
  "Computing a decomposition never stores the columns of D or R, so peak memory is bounded by the stored columns of V and two working columns.",
  ["inputs"], "all matrices", "no test measures memory",
  ["phlite/src/reduction/clearing.rs", "phlite/src/reduction/standard.rs"], [("lazy R = DV", "phlite/src/reduction/clearing.rs")], ["peak allocation"])

p("C14", "Matrices implemented in Python behave like native matrices",
  "A matrix, basis and index type implemented in Python can be reduced with the same result as the same matrix implemented natively.",
  ["inputs", "programs"], "all Python implementations of the matrix interface", "the binding crate has only the template test",
  ["phlite_py/src/lib.rs"], [("Python-backed matrix oracle", "phlite_py/src/lib.rs")], ["diagrams of Python-backed matrices"])

p("C15", "Arithmetic that leaves the representable range is never silently wrong",
  "A simplex index, rational coefficient or node number that does not fit its machine type makes the computation fail rather than return a wrong result.",
  ["inputs", "configurations"], "all inputs and build profiles", "no test comes near the limits",
  ["phlite_rips/src/lib.rs", "phlite/src/fields.rs", "phlite_grpph/src/lib.rs"], [("plain machine arithmetic", "phlite/src/fields.rs")], ["results at the limits"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
