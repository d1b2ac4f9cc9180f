"""C09: the real Python extension module, called by several Python threads.

Exactly one thread runs at a time.  The module logs through Python's logging, so each log record is a point where
the interpreter can switch threads: there (and between calls) the seeded scheduler decides who goes on, and there
handlers fail, call the module again, collect garbage or change the logging configuration.
"""
import ctypes
import gc
import importlib.util
import itertools
import logging
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import engine
from vlib.engine import Violation

_spec = importlib.util.spec_from_file_location("phlite_grpph", os.environ["SIM_MODULE"])
mod = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(mod)
INF = float("inf")
# simulated time (shim/clock.c, preloaded)
CLOCK = getattr(ctypes.CDLL(None), "sim_clock", None)
LOOKS = ctypes.POINTER(ctypes.c_long).in_dll(ctypes.CDLL(None), "sim_clock_looks") if CLOCK else None
if CLOCK:
    # for the module only
    at = [[int(x, 16) for x in line.split()[0].split("-")] for line in open("/proc/self/maps") if line.rstrip().endswith(os.environ["SIM_MODULE"])]
    ctypes.CDLL(None).sim_clock_for(ctypes.c_size_t(min(a for a, _ in at)), ctypes.c_size_t(max(b for _, b in at)))


# ---------------------------------------------------------------- oracle

class Part:
    """Grounded persistent path homology over Z2 of the shortest-path filtration, straight from the definition."""

    def __init__(self, edges):
        # a vertex without edges only adds an essential class of degree 0: leave it out, keep the order of the others
        used = sorted({v for e in edges for v in e[:2]})
        self.number = {v: i for i, v in enumerate(used)}
        edges = [(self.number[a], self.number[b], w) for a, b, w in edges]
        self.n = n = len(used)
        t = [[INF] * n for _ in range(n)]
        for a, b, w in edges:
            t[a][b] = min(t[a][b], w)
        for k in range(n):
            for i in range(n):
                for j in range(n):
                    if i != j and t[i][k] + t[k][j] < t[i][j]:
                        t[i][j] = t[i][k] + t[k][j]
        self.t = t
        ground = {(a, b) for a, b, _ in edges}
        self.birth = {}
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                if (i, j) in ground:
                    self.birth[i, j] = 0.0
                elif t[i][j] < INF:
                    self.birth[i, j] = t[i][j]
        order = sorted(self.birth, key=lambda e: (self.birth[e], e))
        comp = list(range(n))
        self.fin = [[], []]
        closing = []
        for e in order:
            a, b = comp[e[0]], comp[e[1]]
            if a == b:
                closing.append(e)
            else:
                if self.birth[e] > 0:
                    self.fin[0].append((0.0, self.birth[e]))
                comp = [b if c == a else c for c in comp]
        self.ess = [[0.0] * len(set(comp)), []]
        self.times = sorted({t[i][j] for i in range(n) for j in range(n) if i != j and t[i][j] < INF})
        self.spaces, self.poss = {}, {}
        killed = set()
        for x in self.times:
            low, names = self.space(x)
            for p in low:
                e = names[p]
                if e is not None and e not in killed:
                    killed.add(e)
                    if x > self.birth[e]:
                        self.fin[1].append((self.birth[e], x))
        self.ess[1] = sorted(self.birth[e] for e in closing if e not in killed)
        self.fin = [sorted(f) for f in self.fin]

    def space(self, x):
        """Reduced boundaries at time x, by greatest edge; edges not there at x come last (names None)."""
        if x in self.spaces:
            return self.spaces[x]
        n, t = self.n, self.t
        inside = [e for e in self.birth if t[e[0]][e[1]] <= x]
        inside.sort(key=lambda e: (self.birth[e], e))
        pos = {e: i for i, e in enumerate(inside)}
        absent = {}
        names = list(inside)
        k = len(inside)
        low = {}
        for a in range(n):
            for b in range(n):
                if (a, b) not in pos:
                    continue
                for c in range(n):
                    if c == b or (b, c) not in pos:
                        continue
                    v = (1 << pos[a, b]) ^ (1 << pos[b, c])
                    if a != c:
                        p = pos.get((a, c), absent.get((a, c)))
                        if p is None:
                            p = absent[a, c] = k
                            names.append(None)
                            k += 1
                        v ^= 1 << p
                    while v:
                        p = v.bit_length() - 1
                        if p not in low:
                            low[p] = v
                            break
                        v ^= low[p]
        self.spaces[x] = (low, names)
        self.poss[x] = pos
        return self.spaces[x]

    def is_boundary(self, chain, x):
        """Whether a sum of edges is the boundary of a chain at time x."""
        low, _ = self.space(x)
        pos = self.poss[x]
        v = 0
        for e in chain:
            if e not in pos:
                return False
            v ^= 1 << pos[e]
        while v:
            p = v.bit_length() - 1
            if p not in low:
                return False
            v ^= low[p]
        return True


class Model:
    """The same for any digraph: its weakly connected parts one by one."""

    def __init__(self, n, edges):
        root = {}

        def find(v):
            while root.setdefault(v, v) != v:
                v = root[v]
            return v
        for a, b, _ in edges:
            root[find(a)] = find(b)
        split = {}
        for e in edges:
            split.setdefault(find(e[0]), []).append(e)
        self.parts = [Part(es) for es in split.values()]
        self.of = {v: p for p in self.parts for v in p.number}
        self.fin = [sorted(b for p in self.parts for b in p.fin[k]) for k in (0, 1)]
        alone = n - sum(p.n for p in self.parts)
        self.ess = [[0.0] * (alone + sum(len(p.ess[0]) for p in self.parts)), sorted(b for p in self.parts for b in p.ess[1])]
        self.times = sorted({x for p in self.parts for x in p.times})
        self.birth = {}
        for p in self.parts:
            name = {i: v for v, i in p.number.items()}
            for (a, b), x in p.birth.items():
                self.birth[name[a], name[b]] = x

    def is_boundary(self, chain, x):
        split = {}
        for a, b in chain:
            p = self.of[a]
            split.setdefault(id(p), (p, []))[1].append((p.number[a], p.number[b]))
        return all(p.is_boundary(c, x) for p, c in split.values())

    def check(self, what, res, reps):
        ess, fin = res[0], res[1]
        if len(ess) != 2 or len(fin) != 2:
            raise Violation("shape", f"{what}: {len(ess)} and {len(fin)} degrees")
        for k in (0, 1):
            if sorted(ess[k]) != sorted(self.ess[k]):
                raise Violation("essential", f"{what}: essential births of degree {k} {sorted(ess[k])}, should be {sorted(self.ess[k])}")
            if sorted(map(tuple, fin[k])) != self.fin[k]:
                raise Violation("pairings", f"{what}: finite bars of degree {k} {sorted(fin[k])}, should be {self.fin[k]}")
        if not reps:
            return
        got = []
        for r in res[2]:
            r = [tuple(e) for e in r]
            if len(set(r)) != len(r) or not r:
                raise Violation("representative", f"{what}: representative {r}")
            ends = {}
            for a, b in r:
                if (a, b) not in self.birth:
                    raise Violation("representative", f"{what}: {(a, b)} in representative {r} is no edge")
                ends[a] = ends.get(a, 0) ^ 1
                ends[b] = ends.get(b, 0) ^ 1
            if any(ends.values()):
                raise Violation("representative", f"{what}: representative {r} is no cycle")
            b = max(self.birth[e] for e in r)
            d = next((x for x in self.times if self.is_boundary(r, x)), None)
            got.append((b, d))
        if sorted(got, key=str) != sorted(self.fin[1], key=str):
            raise Violation("representative", f"{what}: representatives appear and bound at {sorted(got, key=str)}, the bars are {self.fin[1]}")


# ---------------------------------------------------------------- simulation

class Faulty(Exception):
    pass


EXC = [Faulty, ValueError, KeyError, MemoryError, RecursionError, OSError, StopIteration, AssertionError, KeyboardInterrupt]


class ArgFailed(Exception):
    pass


class Num:
    """A number that is not a plain one: converting it runs Python code, where threads change and things fail."""

    def __init__(self, sim, v):
        self.sim, self.v = sim, v

    def __index__(self):
        return self.sim.on_number(self.v)

    def __float__(self):
        return float(self.sim.on_number(self.v))


class Sim:
    def __init__(self, ch, ctx):
        self.ch, self.ctx = ch, ctx
        self.cv = threading.Condition(threading.Lock())
        self.current = None
        self.alive = []
        self.local = threading.local()
        self.viol = None
        self.depth = {}
        self.faults = False
        self.cases = []
        self.lazy = False  # whether some arguments are such numbers
        self.armed = {}  # per thread: whether the call being made has an argument that failed

    def switch(self, me, where):
        """A scheduling point of thread `me`."""
        ctx = self.ctx
        ctx.steps += 1
        with self.cv:
            if len(self.alive) > 1:
                nx = self.alive[self.ch.draw(len(self.alive))]
                if nx != me:
                    ctx.switches += 1
                    ctx.sched.update(f"{ctx.steps}>{nx};".encode())
                    ctx.note(f"thread {me} parked at {where}, thread {nx} runs")
                    self.current = nx
                    self.cv.notify_all()
                    while self.current != me:
                        self.cv.wait()

    def client(self, me, ops):
        with self.cv:
            while self.current != me:
                self.cv.wait()
        try:
            self.local.me = me
            for op in ops:
                self.call(me, op, 0)
                self.switch(me, "return")
        except Violation as e:
            self.viol = self.viol or e
        except BaseException as e:  # noqa: a result was due
            self.viol = self.viol or Violation("exception", f"a call raised {type(e).__name__}: {str(e)[:300]}")
        finally:
            with self.cv:
                self.alive.remove(me)
                if self.alive:
                    self.current = self.alive[self.ch.draw(len(self.alive))]
                self.cv.notify_all()

    def call(self, me, op, depth):
        try:
            self.one_call(me, op, depth)
        except Violation as e:
            self.viol = self.viol or e  # inside a handler, raising alone would not be noticed
            raise

    def one_call(self, me, op, depth):
        which, k = op
        n, edges, model, pre = self.cases[k]
        self.depth[me] = depth
        what = f"thread {me}, depth {depth}, {'grpph_with_involution' if which else 'grpph'} on graph {k}"
        self.ctx.note("call " + what)
        self.ctx.count("op.call_with_representatives" if which else "op.call")
        if depth:
            self.ctx.count("op.reentrant_call")
        args = list(edges)
        if self.lazy and self.ch.chance(1, 2):
            for _ in range(self.ch.range(1, 3)):
                if args:
                    i = self.ch.draw(len(args))
                    args[i] = tuple(Num(self, x) if type(x) in (int, float) and self.ch.draw(2) else x for x in args[i])
            if self.ch.chance(1, 4):
                n = Num(self, n)
            if self.ch.chance(1, 4):
                args = tuple(args)
        outer = self.armed.get(me)
        self.armed[me] = False
        try:
            res = (mod.grpph_with_involution if which else mod.grpph)(n, args)
            if self.armed[me]:
                raise Violation("failed-argument", f"{what} returned {res!r} although converting an argument failed")
        except ArgFailed:
            if not self.armed[me]:
                raise Violation("exception", f"{what} raised the failure of another call's argument")
            self.ctx.note(f"{what} failed with its argument")
            return
        except Violation:
            raise
        except BaseException as e:
            raise Violation("exception", f"{what} raised {type(e).__name__}: {str(e)[:300]}")
        finally:
            self.armed[me] = outer
            self.depth[me] = depth - 1 if depth else 0
        self.ctx.note(f"result {res!r}")
        model.check(what, res, which)
        if model.fin[1]:
            self.ctx.count("probe.finite_bar_degree1")

    def on_number(self, v):
        """Inside the module, while it converts an argument."""
        me = self.local.me
        self.ctx.count("seam.argument")
        self.switch(me, "argument conversion")
        if self.faults:
            k = self.ch.draw(16)
            d = self.depth.get(me, 0)
            if k == 15 and d < 2:
                self.call(me, (self.ch.draw(2), self.ch.draw(len(self.cases))), d + 1)
            elif k == 14:
                self.ctx.count("fault.argument_raises")
                self.armed[me] = True
                raise ArgFailed("no number")
        return v

    def on_record(self, record):
        """Inside the module, at a log record."""
        me = getattr(self.local, "me", None)
        if me is None:
            return
        ch, ctx = self.ch, self.ctx
        ctx.count("seam.log_record")
        d = self.depth.get(me, 0)
        self.switch(me, f"log record {record.getMessage()[:40]!r}")
        if not self.faults:
            return
        k = ch.draw(12)
        if k == 11 and d < 2:
            # call again from inside
            self.call(me, (ch.draw(2), ch.draw(len(self.cases))), d + 1)
            self.switch(me, "re-entrant return")
        elif k == 10:
            gc.collect()
            ctx.count("fault.gc_in_handler")
        elif k == 9:
            lv = ch.pick([logging.DEBUG, logging.INFO, logging.WARNING, logging.CRITICAL])
            logging.getLogger(ch.pick(["phlite_grpph", ""])).setLevel(lv)
            ctx.count("fault.level_changed_in_handler")
        elif k in (7, 8):
            e = ch.pick(EXC)
            ctx.count("fault.handler_raises")
            ctx.note(f"handler of thread {me} raises {e.__name__}")
            raise e("handler failed")


class Handler(logging.Handler):
    def __init__(self, sim):
        logging.Handler.__init__(self)
        self.sim = sim

    def createLock(self):
        self.lock = None  # a lock held while parked would be the harness's deadlock, not the module's

    def handle(self, record):
        self.emit(record)
        return True

    def emit(self, record):
        self.sim.on_record(record)


def draw_graph(ch, ctx):
    n, edges = draw_connected(ch, ctx)
    if ch.chance(1, 16):
        # several digraphs side by side
        ctx.count("probe.disjoint_union")
        parts = [(n, edges)]
        vast = ch.chance(1, 8)
        for _ in range(ch.range(8, 40) if vast else ch.range(1, 6)):
            parts.append(draw_connected(ch, ctx, small=True))
        n = sum(p[0] for p in parts)
        if vast:
            n = max(n, ch.range(257, 400))
            ctx.count("probe.hundreds_of_vertices")
        to = list(range(n))
        rnd = random.Random(ch.draw(1 << 30))
        rnd.shuffle(to)
        edges, base = [], 0
        for m, es in parts:
            edges += [(to[base + a], to[base + b], w) for a, b, w in es]
            base += m
        rnd.shuffle(edges)
    return n, edges


def draw_connected(ch, ctx, small=False):
    kind = ch.draw(8)
    n = ch.draw(7) if kind else 0
    edges = []
    dense = ch.range(1, 8)
    levels = ch.pick([1, 2, 4, 12])
    inf = ch.draw(3)
    if kind == 7:
        # a long directed cycle with a few chords
        n = ch.range(3, 9)
        p = list(range(n))
        for i in range(n):
            edges.append((i, (i + 1) % n, 0.25 * (1 + ch.draw(levels))))
        for _ in range(ch.draw(4)):
            a, b = ch.draw(n), ch.draw(n)
            if a != b and all((a, b) != e[:2] for e in edges):
                edges.append((a, b, INF if ch.chance(1, 5) else 0.25 * ch.draw(12)))
    else:
        for i in range(n):
            for j in range(n):
                if i != j and ch.chance(dense, 9):
                    w = INF if inf and ch.chance(inf, 12) else 0.25 * (ch.draw(levels) + ch.draw(2))
                    edges.append((i, j, w))
        if kind == 6 and n and not small:
            # some far-off vertices with high numbers, most of them alone
            m = ch.range(1, 60) if ch.chance(15, 16) else ch.range(200, 330)
            to = list(range(n))
            for i in range(n):
                if ch.draw(2):
                    v = n + ch.draw(m)
                    if v not in to:
                        to[i] = v
            if ch.draw(2):
                to.sort()
            edges = [(to[a], to[b], w) for a, b, w in edges]
            n += m
    if edges and ch.chance(1, 5):
        # the same edge again, with another weight
        for _ in range(ch.range(1, 3)):
            a, b, _w = edges[ch.draw(len(edges))]
            edges.append((a, b, INF if ch.chance(1, 5) else 0.25 * ch.draw(12)))
    k = ch.draw(16)
    if k == 15:
        # all weights nearly equal
        far = ch.pick([2.0 ** 20, 2.0 ** 26, 2.0 ** 44])
        edges = [(a, b, w + far) for a, b, w in edges]
        ctx.count("probe.nearly_equal_weights")
    elif k == 14:
        # (a power of two: sums stay exact)
        f = 2.0 ** ch.pick([-1000, -52, -40, -20, 10, 30, 52, 900])
        edges = [(a, b, w * f) for a, b, w in edges]
        ctx.count("probe.extreme_weights")
    # order of the edge list is not supposed to matter
    for i in range(len(edges) - 1, 0, -1):
        j = ch.draw(i + 1)
        edges[i], edges[j] = edges[j], edges[i]
    if ch.chance(1, 6):
        edges = [(a, b, int(w) if w < INF and w == int(w) else w) for a, b, w in edges]
    return n, edges


def draw_variant(ch, n, edges):
    """A graph that looks much like one before: what tells them apart is one weight, one end, one order."""
    edges = list(edges)
    for _ in range(ch.range(1, 2)):
        k = ch.draw(5)
        if not edges:
            n += ch.draw(2)
            continue
        i = ch.draw(len(edges))
        a, b, w = edges[i]
        if k == 0:
            edges[i] = (a, b, INF if ch.chance(1, 4) else 0.25 * ch.draw(12))
        elif k == 1:
            edges[i] = (b, a, w)
        elif k == 2:
            c = ch.draw(n)
            if c != a:
                edges[i] = (a, c, w)
        elif k == 3:
            n += 1
        else:
            j = ch.draw(len(edges))
            edges[i], edges[j] = edges[j][:2] + (w,), (a, b) + edges[j][2:]
    return n, edges


DEVNULL = open(os.devnull, "w")


def run(ch, ctx, seed):
    root, lg = logging.getLogger(), logging.getLogger("phlite_grpph")
    sim = Sim(ch, ctx)
    for _ in range(ch.range(1, 3)):
        if sim.cases and ch.chance(1, 2):
            old = ch.pick(sim.cases)
            n, edges = draw_variant(ch, old[0], old[1])
        else:
            n, edges = draw_graph(ch, ctx)
        ctx.desc.append(f"graph with {n} vertices, edges {edges}")
        sim.cases.append((n, edges, Model(n, edges), None))
    threads = ch.pick([1, 2, 2, 3, 4])
    plans = [[(ch.draw(2), ch.draw(len(sim.cases))) for _ in range(ch.range(1, 3))] for _ in range(threads)]
    sim.faults = ch.chance(2, 3)
    sim.lazy = ch.chance(1, 3)
    cfg = ch.draw(6)
    lv = logging.INFO if cfg < 4 else ch.pick([logging.DEBUG, logging.WARNING, logging.NOTSET])
    h = Handler(sim)
    where = root if cfg % 2 else lg
    keep = (root.level, lg.level, list(root.handlers), list(lg.handlers), lg.propagate, lg.disabled, logging.raiseExceptions)
    ctx.desc.append(f"{threads} threads, plans {plans}, faulty handlers {sim.faults}, level {lv}, handler on {'root' if where is root else 'module'} logger")
    stderr, hook = sys.stderr, sys.unraisablehook
    style = 1 + ch.draw(5)
    try:
        if CLOCK:
            CLOCK(style)
        root.handlers, lg.handlers = [], []
        where.addHandler(h)
        root.setLevel(lv)
        lg.setLevel(lv)
        if cfg == 5:
            lg.propagate = bool(ch.draw(2))
            lg.disabled = bool(ch.draw(2))
        if cfg == 3:
            class Bad(logging.Filter):
                def filter(self, record):
                    if ch.chance(1, 4):
                        ctx.count("fault.filter_raises")
                        raise Faulty("filter failed")
                    return True
            lg.filters[:] = [Bad()]
        sys.stderr = DEVNULL
        sys.unraisablehook = lambda *a: None
        sim.alive = list(range(threads))
        sim.current = ch.draw(threads)
        ts = [threading.Thread(target=sim.client, args=(i, plans[i]), daemon=True) for i in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        if CLOCK:
            n = LOOKS[0]
            CLOCK(0)
            ctx.count("op.clock_looked_at", n)
            ctx.count("fault.clock_jumps", n if style in (2, 3, 4) else n // 7 if style == 5 else 0)
        sys.stderr, sys.unraisablehook = stderr, hook
        root.level, lg.level = keep[0], keep[1]
        root.handlers, lg.handlers, lg.propagate, lg.disabled = keep[2], keep[3], keep[4], keep[5]
        lg.filters[:] = []
        logging.Logger.manager._clear_cache()
    ctx.count("threads", threads)
    if threads > 1:
        ctx.count("runs_multi_thread")
    if sim.viol:
        raise sim.viol


if __name__ == "__main__":
    # what the module remembers about logging must not reach the next run
    engine.ISOLATE = True
    sys.setswitchinterval(1000)  # threads change at our points only
    engine.main(run, "py")
