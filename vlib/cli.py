"""C08: the real Rips command-line tool under a simulated operating system (shim/shim.c)."""
import errno
import itertools
import os
import random
import re
import struct
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import engine
from vlib.engine import Violation

BIN = os.environ["SIM_CLI"]
SHIM = os.environ["SIM_SHIM"]
EPS = 0.01


# ---------------------------------------------------------------- oracle

NUM = re.compile(rb"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)\Z")


def parse_csv(data):
    """Fields of the records a CSV reader sees; None where this model does not say."""
    if b'"' not in data:
        return [line.split(b",") for line in re.split(rb"[\r\n]", data) if line]
    rows, row, field = [], [], bytearray()
    i, n, quoted, started = 0, len(data), False, False
    while i < n:
        c = data[i:i + 1]
        if quoted:
            if c == b'"':
                quoted = False
                if i + 1 < n and data[i + 1:i + 2] not in (b",", b"\n", b"\r"):
                    return None
            else:
                field += c
        elif c == b'"':
            if field:
                return None
            quoted = started = True
        elif c == b",":
            row.append(bytes(field))
            field = bytearray()
            started = True
        elif c in (b"\n", b"\r"):
            if started or field or row:
                row.append(bytes(field))
                rows.append(row)
            row, field, started = [], bytearray(), False
        else:
            field += c
            started = True
        i += 1
    if quoted:
        return None
    if started or field or row:
        row.append(bytes(field))
        rows.append(row)
    return rows


def matrix_of(data):
    """('matrix', m), ('bad',) where no square matrix is spelled, ('any',) where the outcome is not ours to say."""
    rows = parse_csv(data)
    if rows is None:
        return ("any",)
    m, blanks = [], False
    for r in rows:
        v = []
        for x in r:
            low = x.lstrip(b"+-").lower()
            if low in (b"inf", b"infinity"):
                return ("any",)
            if not NUM.match(x):
                if NUM.match(x.strip()):
                    blanks = True
                    x = x.strip()
                else:
                    return ("bad",)
            v.append(float(x))
        m.append(v)
    n = len(m)
    if any(len(r) != n for r in m):
        return ("bad",)
    if blanks:
        return ("any",)
    for i in range(n):
        if m[i][i] != 0.0:
            return ("any",)
        for j in range(i):
            if m[i][j] != m[j][i] or m[i][j] < 0:
                return ("any",)
    return ("matrix", m)


def barcode(m, top):
    """Bars of the Rips filtration over Z2 in dimensions 0..top: (dim, birth, death or None), sorted."""
    n = len(m)
    if top == 0 and n > 24:
        return spanning(m)
    two = n > 24 and top == 1 and two_parts(m)
    if two:
        # all of one part meet all of the other at s; everything is one simplex from t on
        a, b, s, t = two
        return [(0, 0.0, None)] + [(0, 0.0, s)] * (n - 1) + [(1, s, t)] * ((a - 1) * (b - 1))
    cells = []
    for k in range(1, top + 3):
        for s in itertools.combinations(range(n), k):
            d = 0.0
            for a in range(k):
                for b in range(a):
                    if m[s[a]][s[b]] > d:
                        d = m[s[a]][s[b]]
            cells.append((d, k, s))
    cells.sort()
    at = {c[2]: i for i, c in enumerate(cells)}
    low = {}
    positive = []
    bars = []
    for j, (d, k, s) in enumerate(cells):
        col = 0
        if k > 1:
            for x in range(k):
                col ^= 1 << at[s[:x] + s[x + 1:]]
        while col:
            p = col.bit_length() - 1
            if p not in low:
                break
            col ^= low[p]
        if col:
            p = col.bit_length() - 1
            low[p] = col
            b = cells[p]
            if b[1] - 1 <= top and d > b[0]:
                bars.append((b[1] - 1, b[0], d))
        elif k - 1 <= top:
            positive.append(j)
    for j in positive:
        if j not in low:
            bars.append((cells[j][1] - 1, cells[j][0], None))
    return bars


def spanning(m):
    """Degree 0: the edges of a minimal spanning tree."""
    n = len(m)
    far, done, bars = list(m[0]), [False] * n, []
    done[0] = True
    for _ in range(n - 1):
        j = min((k for k in range(n) if not done[k]), key=far.__getitem__)
        done[j] = True
        if far[j] > 0:
            bars.append((0, 0.0, far[j]))
        far = list(map(min, far, m[j]))
    return bars + [(0, 0.0, None)] * (n > 0)


def two_parts(m):
    """(a, b, s, t) if the points fall in parts of a and b, with distance s between and t > s within them."""
    n = len(m)
    s = min(m[0][1:])
    part = [m[0][j] == s and j > 0 for j in range(n)]
    t = max(max(r) for r in m)
    if not 0 < s < t:
        return None
    for i in range(n):
        for j in range(n):
            if i != j and m[i][j] != (t if part[i] == part[j] else s):
                return None
    return (n - sum(part), sum(part), s, t)


def comb(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r if k <= n else 0


LINE = re.compile(r"\s*dim\s*=\s*(\d+)\b.*\bf\s*=\s*\(\s*([^,()]+?)\s*,\s*([^,()]+?)\s*\)\s*$")
SIZE = re.compile(r"\s*Dimension\s+(\d+)\s*:\s*(\d+)\s*$")


def check_report(out, m, top):
    try:
        text = out.decode("utf8")
    except UnicodeDecodeError:
        raise Violation("partial-report", "exit status 0 with torn output")
    if text and not text.endswith("\n"):
        raise Violation("partial-report", "exit status 0 but the output stops in the middle of a line")
    section, sizes, bars, seen = None, {}, [], set()
    for line in text.split("\n"):
        head = line.strip().lower()
        if head in ("basis sizes:", "essential:", "pairings:"):
            section = head
            if head in seen:
                raise Violation("wrong-report", f"two sections {head!r}")
            seen.add(head)
        elif not head:
            continue
        elif SIZE.match(line) and section == "basis sizes:":
            g = SIZE.match(line)
            if int(g[1]) in sizes:
                raise Violation("wrong-report", f"dimension {g[1]} has two sizes")
            sizes[int(g[1])] = int(g[2])
        elif LINE.match(line) and section in ("essential:", "pairings:"):
            g = LINE.match(line)
            d = None if g[3] in ("∞", "inf") else float(g[3])
            if (d is None) != (section == "essential:"):
                raise Violation("wrong-report", f"line in the wrong section: {line}")
            bars.append((int(g[1]), float(g[2]), d))
        else:
            raise Violation("wrong-report", f"unexpected line {line!r}")
    if seen != {"basis sizes:", "essential:", "pairings:"}:
        raise Violation("partial-report", f"exit status 0 with sections {sorted(seen)} only")
    n = len(m)
    want = {d: comb(n, d + 1) for d in range(top + 1)}
    if sizes != want:
        raise Violation("wrong-sizes", f"basis sizes {sizes}, should be {want}")
    key = lambda b: (b[0], b[1], -1.0 if b[2] is None else b[2])
    wb = sorted((b for b in barcode(m, top) if b[2] is None or b[2] - b[1] > EPS), key=key)
    bars.sort(key=key)
    if bars != wb:
        cls = "partial-report" if len(bars) < len(wb) and set(bars) <= set(wb) else "wrong-barcode"
        raise Violation(cls, f"reported bars (dim, birth, death) {bars[:12]}, should be {wb[:12]}")


# ---------------------------------------------------------------- cases


def draw_matrix(ch, ctx):
    kind = ch.draw(10)
    large = ch.draw(10) if kind == 9 else 0
    if large == 9:
        # many bars above dimension 0
        a, b = ch.range(12, 45), ch.range(12, 45)
        s, t = ch.pick([(1.0, 2.0), (0.125, 0.25), (1.0, 1.015625), (3.0, 1e9)])
        ctx.count("probe.many_bars")
        return [[0.0 if i == j else t if (i < a) == (j < a) else s for j in range(a + b)] for i in range(a + b)], 1
    if large == 8 and ch.draw(5) == 4:
        # reports and inputs far beyond any buffer
        n = ch.range(200, 420)
        rnd = random.Random(ch.draw(1 << 30))
        levels, scale = ch.pick([3, 40, 100000]), ch.pick([1.0, 0.125, 0.004])
        m = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i] = rnd.randrange(levels) * scale
        ctx.count("probe.hundreds_of_points")
        return m, 0
    if large == 8:
        ctx.count("probe.many_points")
        n, top = ch.range(41, 140), 0
    elif kind == 9:
        n = ch.range(12, 40)
        top = ch.draw(2) if n <= 24 else 0
    else:
        n = ch.draw(8)
        top = ch.draw(4) if n <= 5 else ch.draw(3)
    style = ch.draw(4)
    near = 0.01 * (1 + ch.pick([0.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 2.0 ** -52, -2.0 ** -52]))
    scale = ch.pick([[1.0], [0.25, 0.5, 1.0], [0.004, 0.02, 1.0], [0.001, 7.0, 100.0, 1e6], [near], [near, 0.01, 3.0]])
    levels = ch.pick([2, 5, 30])
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = ch.draw(levels) * scale[ch.draw(len(scale))]
    if style == 1 and n > 2:
        # a circle, disturbed a little
        for i in range(n):
            for j in range(n):
                if (i * 7 + j * 3) % 5 or i == j:
                    m[i][j] = m[j][i] = float(min((i - j) % n, (j - i) % n))
    if style == 2 and n % 2 == 0:
        for i in range(n):
            for j in range(n):
                m[i][j] = 0.0 if i == j else (2.0 if i // 2 == j // 2 else 1.0)
    if ch.chance(1, 8):
        # all nearly the same
        far = ch.pick([1000.0, 1e6, 16777216.0, 2.0 ** 40])
        for i in range(n):
            for j in range(n):
                if i != j:
                    m[i][j] += far
    return m, top


def spell(x, how):
    if how == 0:
        return repr(x)
    if how == 1:
        return f"{x:.6f}"
    if how == 2:
        return f"{x:.9e}"
    return repr(x) if x != int(x) else str(int(x))


def draw_csv(ch, ctx, m):
    how = ch.draw(5)
    eol = ch.pick(["\n", "\n", "\r\n"])
    rows = []
    for i, r in enumerate(m):
        rows.append(",".join(spell(x, how if how < 4 else ch.draw(4)) for x in r))
    blank = ch.chance(1, 10)
    text = eol.join(rows) + (eol if rows and not ch.chance(1, 4) else "")
    if rows and "." in text and ch.chance(1, 60):
        # very long numbers
        zeros = "0" * min(ch.pick([40, 400, 4000]), 400000 // max(1, text.count(".")))
        ctx.count("probe.long_input")
        text = re.sub(r"(\.\d+)", lambda g: g[1] + zeros, text)
    if blank and rows:
        text = text.replace(eol, eol + eol, 1)
    if ch.chance(1, 12) and m:
        text = text.replace("0", '"0"', 1) if rows[0].startswith("0,") else text
    return text.encode()


def damage(ch, ctx, data):
    """Input that stops short, has ragged rows, or does not parse."""
    kind = ch.draw(8)
    b = bytearray(data)
    p = ch.draw(len(b) + 1)
    if kind == 0:
        b = b[:p]
    elif kind == 1:
        lines = data.split(b"\n")
        k = ch.draw(len(lines))
        b = b"\n".join(lines[:k] + lines[k + 1:])
    elif kind == 2:
        b[p:p] = ch.pick([b"x", b" ", b",", b"\n", b"-", b"nan", b"\xff", b"1,", b"e"])
    elif kind == 3 and b:
        b[p - 1:p] = b""
    elif kind == 4:
        b += ch.pick([b"0,1\n", b"\n\n", b"7", b",", b"0", b"nan\n"])
    elif kind == 5:
        lines = data.split(b"\n")
        k = ch.draw(len(lines))
        b = b"\n".join(lines[:k] + [lines[k] + b",1"] + lines[k + 1:])
    elif kind == 6:
        lines = data.split(b"\n")
        k = ch.draw(len(lines))
        b = b"\n".join(lines[:k] + [lines[k].rpartition(b",")[0]] + lines[k + 1:])
    else:
        # every row loses its last number, or a number is no number
        if ch.draw(2):
            b = b"\n".join(x.rstrip(b"\r").rpartition(b",")[0] for x in data.split(b"\n"))
        else:
            f = data.split(b",")
            k = ch.draw(len(f))
            f[k] = ch.pick([b"nan", b"NaN", b"1_0", b"one", b"", b"0x1", b"1.2.3"]) + (b"\n" + f[k].partition(b"\n")[2] if b"\n" in f[k] else b"")
            b = b",".join(f)
    ctx.count("input.damaged")
    return bytes(b)


READ_ERR = [errno.EIO, errno.EAGAIN, errno.EISDIR, errno.ENXIO, errno.ENOMEM]
WRITE_ERR = [errno.EIO, errno.EPIPE, errno.ENOSPC, errno.EAGAIN, errno.EFBIG]


def draw_plan(ch, ctx, n_in):
    """(words, benign): the faults of this run, and whether it must succeed all the same."""
    words, benign, must_fail = [], True, False
    delivered = n_in
    if ch.chance(1, 2):
        # how input is delivered
        style = ch.draw(5)
        big = ch.pick([1, 3, 16, 200, 5000])
        got = 0
        if n_in > 60000 and ch.chance(1, 2):
            # whatever comes comes late
            for _ in range(ch.draw(n_in // 8192 + 2)):
                words.append("r8192")
                got += 8192
        for _ in range(ch.draw(12) if style < 4 else min(n_in, 300)):
            k = 1 + ch.draw(big)
            words.append(f"r{k}")
            got += k
        if ch.chance(1, 3) and got <= n_in:
            if ch.draw(3) == 0:
                words.append(f"rE{errno.EINTR}")
                benign = False
            elif ch.draw(2) == 0:
                words.append(f"rE{ch.pick(READ_ERR)}")
                benign = False
                must_fail = True
            else:
                words.append("r0")
                delivered = min(got, n_in)
    if ch.chance(1, 2):
        k = ch.draw(5)
        if k == 0:
            for _ in range(ch.range(1, 60)):
                words.append(f"wE{errno.EINTR}" if ch.chance(1, 4) else f"w{1 + ch.draw(ch.pick([1, 8, 40]))}")
        elif k == 1:
            words.append(f"W{ch.draw(ch.pick([20, 200, 2000, 60000] if n_in > 60000 else [20, 200, 2000]))}")
            benign = False
        else:
            for _ in range(ch.draw(ch.pick([3, 12, 60, 500] if n_in > 60000 else [3, 12, 60]))):
                words.append(f"w{1 + ch.draw(60)}" if ch.chance(1, 3) else "w100000")
            words.append(f"wE{ch.pick(WRITE_ERR)}")
            benign = False
    if ch.chance(1, 5):
        if ch.chance(1, 4):
            words.append(f"M{1 << ch.range(3, 16)}")
        else:
            words.append(f"m{1 + ch.draw(1 << ch.range(1, 12))}")
        benign = False
    words.append(f"g{ch.draw(1000)}")
    words.append(f"t{1 + ch.draw(5)}")
    return words, benign, must_fail, delivered


def memfd(name, data=b""):
    fd = os.memfd_create(name)
    if data:
        os.write(fd, data)
        os.lseek(fd, 0, 0)
    return fd


def slurp(fd):
    n = os.lseek(fd, 0, 2)
    os.lseek(fd, 0, 0)
    d = b""
    while len(d) < n:
        x = os.read(fd, n - len(d))
        if not x:
            break
        d += x
    os.close(fd)
    return d


# as in shim.c
COUNTERS = ["loaded", "reads", "writes", "rfault", "wfault", "rshort", "wshort", "mfault", "mcount", "bytes", "looks"]


def run(ch, ctx, seed):
    m, top = draw_matrix(ch, ctx)
    data = draw_csv(ch, ctx, m)
    if ch.chance(1, 4):
        data = damage(ch, ctx, data)
    argk = ch.draw(24)
    if argk == 23:
        args = [ch.pick(["x", "-1", "1.5", "99999999999999999999", ""])]
        top = None
    elif top == 1 and argk < 12:
        args = []
    else:
        args = [str(top)]
    plan, benign, must_fail, delivered = draw_plan(ch, ctx, len(data))
    ctx.desc.append(f"arguments {args} stdin {data[:1500]!r}")
    ctx.desc.append("plan " + " ".join(plan))
    i, o, e, r = memfd("in", data), memfd("out"), memfd("err"), memfd("rep")
    env = {"LD_PRELOAD": SHIM, "SIM_PLAN": " ".join(plan), "SIM_REPORT": str(r), "RUST_BACKTRACE": "0"}
    p = subprocess.Popen([BIN] + args, stdin=i, stdout=o, stderr=e, env=env, pass_fds=[r], cwd="/")
    try:
        rc = p.wait(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Violation("hang", "the tool did not end within 60 s")
    os.close(i)
    out, err, rep = slurp(o), slurp(e), slurp(r)
    if rc == -9:
        raise Violation("harness", "the tool was killed from outside")
    if len(rep) < 8 * len(COUNTERS):
        raise Violation("harness", "the shim was not loaded")
    st = dict(zip(COUNTERS, struct.unpack(f"{len(COUNTERS)}q", rep[:8 * len(COUNTERS)])))
    ctx.steps = st.get("reads", 0) + st.get("writes", 0) + st.get("mcount", 0)
    ctx.note(f"exit {rc} out {out.decode('utf8', 'replace')} report {st}")
    ctx.trace.append("stderr " + err.decode("utf8", "replace")[:300])
    for k, nm in (("rshort", "fault.short_read"), ("rfault", "fault.read_error_or_early_end"), ("wshort", "fault.short_write"),
                  ("wfault", "fault.write_error"), ("mfault", "fault.allocation_fails")):
        ctx.count(nm, st.get(k, 0))
    if st.get("looks"):
        ctx.count("op.clock_looked_at", st["looks"])
        ctx.count("fault.clock_jumps", st["looks"] if not {"t1", "t5"} & set(plan) else 0)
    ctx.count("exit.success" if rc == 0 else "exit.failure")
    if delivered < len(data) and st.get("rfault", 0) > 0:
        delivered = st.get("bytes", delivered)
    spelled = matrix_of(data[:delivered]) if top is not None else ("bad",)
    # a plan that was not played to the end did not do what it says
    read_failed = must_fail and st.get("rfault", 0) > 0
    if delivered < len(data) and st.get("rfault", 0) == 0:
        spelled = matrix_of(data) if top is not None else ("bad",)
    if spelled[0] == "matrix" and top and len(spelled[1]) > 40 and not two_parts(spelled[1]):
        spelled = ("any",)
    if rc == 0:
        if read_failed:
            raise Violation("read-error-ignored", "exit status 0 although reading standard input failed")
        if spelled[0] == "bad":
            what = "the arguments name no dimension" if top is None else "the bytes received spell no square matrix"
            raise Violation("bad-input-accepted", f"exit status 0 although {what}; received {data[:delivered]!r}"[:900])
        if spelled[0] == "matrix":
            check_report(out, spelled[1], top)
            ctx.count("probe.full_report_checked")
            if any(b[2] is not None and b[0] > 0 for b in barcode(spelled[1], top)):
                ctx.count("probe.finite_bar_above_dim0")
    else:
        if spelled[0] == "matrix" and (benign or (st.get("wfault", 0) == 0 and st.get("rfault", 0) == 0 and st.get("mfault", 0) == 0)):
            raise Violation("benign-failure", f"exit status {rc} although the input is whole and nothing failed: {err.decode('utf8', 'replace')[:300]}")
        if spelled[0] == "bad":
            ctx.count("probe.bad_input_rejected")
    ctx.count("op.process")


if __name__ == "__main__":
    engine.main(run, "cli")
