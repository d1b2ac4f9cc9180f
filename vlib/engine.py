"""Seeded decisions, batches, replay and minimisation for the simulators written in Python.

The command line and the replay format are those of sim/ (batch, replay, shrink), so check.py drives them all alike.
A run is a function of its decision list: run(choices, seed) -> Result.
"""
import hashlib
import json
import os
import select
import sys
import time

M64 = (1 << 64) - 1


def splitmix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    z = x
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return x, z ^ (z >> 31)


def run_seed(base, prop, idx):
    h = hashlib.sha256(f"{base}/{prop}/{idx}".encode()).digest()
    return int.from_bytes(h[:8], "little")


class Choices:
    """Every decision of a run; 0 is the simplest value of each."""

    def __init__(self, seed=None, replay=None):
        self.state = seed or 0
        self.replay = replay
        self.log = []
        self.sink = None

    def draw(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[len(self.log)] if len(self.log) < len(self.replay) else 0
            v = v if v < n else v % n
        else:
            self.state, z = splitmix(self.state)
            v = z % n
        self.log.append(v)
        if self.sink:
            self.sink.write(f"{v} ")
            self.sink.flush()
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Ctx:
    """What a run records besides its decisions."""

    def __init__(self):
        self.counts = {}
        self.desc = []
        self.trace = []
        self.steps = 0
        self.switches = 0
        self.sched = hashlib.sha256()
        self.digest = hashlib.sha256()

    def count(self, k, n=1):
        if n:
            self.counts[k] = self.counts.get(k, 0) + n

    def note(self, s):
        if len(self.trace) < 2000:
            self.trace.append(f"{self.steps}: {s}")
        self.digest.update(s.encode("utf8", "replace"))


class Out:
    def __init__(self, ctx, choices, viol):
        self.ctx, self.choices, self.viol = ctx, choices, viol


ISOLATE = False
HANG = 30.0


def run_one(run, choices, seed):
    return forked(run, choices, seed) if ISOLATE else here(run, choices, seed)


def forked(run, choices, seed):
    """A run in a child process of its own: nothing one run leaves in the process reaches another, and a run may
    kill or stop its process."""
    sink = os.memfd_create("choices")
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            outer = choices.sink
            choices.sink = os.fdopen(os.dup(sink), "w") if outer is None else outer
            o = here(run, choices, seed)
            c = o.ctx
            d = json.dumps({"viol": [o.viol.cls, o.viol.msg] if o.viol else None, "log": choices.log, "counts": c.counts, "desc": c.desc,
                            "trace": c.trace, "steps": c.steps, "switches": c.switches, "sched": c.sched.hexdigest(), "digest": c.digest.hexdigest()})
            with os.fdopen(w, "w") as f:
                f.write(d)
            code = 0
        except BaseException as e:  # noqa: a fault of the harness
            try:
                os.write(2, f"harness: {type(e).__name__}: {e}\n".encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data, end, hung = b"", time.monotonic() + HANG, False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, 9)
            hung = True
            break
        x = os.read(r, 1 << 16)
        if not x:
            break
        data += x
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    n = os.lseek(sink, 0, 2)
    log = [int(x) for x in os.pread(sink, n, 0).split()] if n else []
    os.close(sink)
    ctx = Ctx()
    out = Out(ctx, choices, None)
    if data and not hung and os.waitstatus_to_exitcode(st) == 0:
        d = json.loads(data)
        ctx.counts, ctx.desc, ctx.trace, ctx.steps, ctx.switches = d["counts"], d["desc"], d["trace"], d["steps"], d["switches"]
        ctx.sched.update(d["sched"].encode())
        ctx.digest.update(d["digest"].encode())
        choices.log = d["log"]
        if d["viol"]:
            out.viol = Violation(*d["viol"])
        return out
    choices.log = log
    code = os.waitstatus_to_exitcode(st)
    if hung:
        out.viol = Violation("hang", f"no progress within {HANG:.0f} s")
    elif code in (-9, -15) or code == 3:
        out.viol = Violation("harness", f"the simulated process ended with {code}")
    else:
        out.viol = Violation("crash", f"the process ended with {code} ({'signal' if code < 0 else 'exit status'})")
    return out


def here(run, choices, seed):
    ctx = Ctx()
    viol = None
    try:
        run(choices, ctx, seed)
    except Violation as e:
        viol = e
    return Out(ctx, choices, viol)


def digest_of(o):
    h = o.ctx.digest.copy()
    for d in o.ctx.desc:
        h.update(d.encode("utf8", "replace"))
    return h.hexdigest()[:16]


def batch(run, argv):
    prop, seed, start, n, progress = argv[0], int(argv[1]), int(argv[2]), int(argv[3]), argv[4]
    digests = len(argv) > 5 and argv[5] == "digests"
    cap = float(os.environ.get("SIM_SECONDS", "1e9"))
    t0 = time.monotonic()
    counts, steps, switches, draws, done, longest = {}, 0, 0, 0, 0, 0
    seen, scheds, samples = set(), set(), []
    total = hashlib.sha256()
    pf = os.open(progress, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    for idx in range(start, start + n):
        if time.monotonic() - t0 > cap:
            break
        os.pwrite(pf, f"{idx:020d}".encode(), 0)
        s = run_seed(seed, prop, idx)
        o = run_one(run, Choices(seed=s), s)
        done += 1
        c = o.ctx
        steps += c.steps
        longest = max(longest, c.steps)
        switches += c.switches
        draws += len(o.choices.log)
        for k, v in c.counts.items():
            counts[k] = counts.get(k, 0) + v
        dg = digest_of(o)
        total.update(dg.encode())
        if digests:
            print(f"D {idx} {dg} {c.steps} {len(o.choices.log)}")
        if c.steps >= 5:
            seen.add(dg)
        if c.switches:
            scheds.add(c.sched.hexdigest())
        if len(samples) < 2 and c.steps >= 5:
            samples.append({"seed_index": idx, "steps": c.steps, "switches": c.switches,
                            "case": " | ".join(x[:400] for x in c.desc[:6]), "trace_head": "; ".join(c.trace[:10])})
        if o.viol:
            print("V " + json.dumps({"index": idx, "hash_seed": s, "class": o.viol.cls, "msg": o.viol.msg, "choices": o.choices.log}), flush=True)
            if o.viol.cls == "harness":
                sys.stdout.flush()
                os._exit(2)
            break
    print("S " + json.dumps({"runs": done, "longest": longest, "steps": steps, "switches": switches, "draws": draws, "discards": 0, "schedules": len(scheds),
                             "digest": total.hexdigest()[:16], "counts": counts, "samples": samples, "distinct": sorted(seen)}), flush=True)


def load(path):
    r = {"trace": []}
    for line in open(path, encoding="utf8"):
        k, _, v = line.rstrip("\n").partition(": ")
        k = k.rstrip(":")
        if k not in r:
            r[k] = v
    r["choices"] = [int(x) for x in r.get("choices", "").split()]
    return r


def save(path, prop, engine, hash_seed, cls, msg, log, note, desc=(), trace=(), run_seed=None):
    with open(path, "w", encoding="utf8") as f:
        f.write(f"property: {prop}\nengine: {engine}\nclass: {cls}\nmessage: {one(msg)}\nhash_seed: {hash_seed}\nnote: {note}\n")
        if run_seed is not None:
            f.write(f"run_seed: {run_seed}\n")
        else:
            f.write("choices: " + " ".join(map(str, log)) + "\n")
        for d in desc:
            f.write(f"case: {one(d)}\n")
        for t in list(trace)[:400]:
            f.write(f"trace: {one(t)}\n")


def one(s):
    return str(s).replace("\n", " ").replace("\r", " ")


def replay(run, path):
    r = load(path)
    ch = Choices(seed=int(r["run_seed"])) if "run_seed" in r else Choices(replay=r["choices"])
    if os.environ.get("SIM_LOG"):
        ch.sink = open(os.environ["SIM_LOG"], "w")
    o = run_one(run, ch, int(r["hash_seed"]))
    for d in o.ctx.desc:
        print(f"case: {one(d)}")
    for t in o.ctx.trace[:400]:
        print(f"trace: {one(t)}")
    if o.viol:
        print(f"reproduced: class {o.viol.cls} ({o.ctx.steps} steps, digest {digest_of(o)}): {one(o.viol.msg)}", flush=True)
        return 2 if o.viol.cls == "harness" else 1
    print(f"no violation ({o.ctx.steps} steps, digest {digest_of(o)})", flush=True)
    return 0


def shrink_list(cur, test, end):
    """Smaller decision lists on which test(list) still gives (normalised) decisions, else None."""

    def trim(x):
        x = list(x)
        while x and x[-1] == 0:
            x.pop()
        return x

    def weight(x):
        return (len(x), sum(x))

    cur = trim(cur)
    tries = 0

    def attempt(c):
        nonlocal cur, tries
        if weight(c) >= weight(cur) or time.monotonic() > end:
            return False
        tries += 1
        got = test(c)
        if got is None:
            return False
        got = trim(got)
        if weight(got) <= weight(cur):
            cur = got
            return True
        return False

    again = True
    while again and time.monotonic() < end:
        again = False
        k = len(cur) // 2
        while k > 0 and time.monotonic() < end:
            if k < len(cur) and attempt(cur[:-k]):
                again = True
                continue
            k //= 2
        size = max(1, len(cur) // 2)
        while time.monotonic() < end:
            i = 0
            while i < len(cur) and time.monotonic() < end:
                j = min(i + size, len(cur))
                if attempt(cur[:i] + cur[j:]):
                    again = True
                    continue
                if any(cur[i:j]) and attempt(cur[:i] + [0] * (j - i) + cur[j:]):
                    again = True
                i += size
            if size == 1:
                break
            size //= 2
        i = 0
        while i < len(cur) and time.monotonic() < end:
            if cur[i]:
                for v in (cur[i] // 2, cur[i] - 1):
                    if i < len(cur) and v < cur[i] and attempt(cur[:i] + [v] + cur[i + 1:]):
                        again = True
                        break
            i += 1
    return cur, tries


def shrink(run, inp, outp, secs, engine):
    r = load(inp)
    hs = int(r["hash_seed"])
    best = [None]

    def test(c):
        o = run_one(run, Choices(replay=c), hs)
        if o.viol and o.viol.cls == r["class"]:
            best[0] = o
            return o.choices.log
        return None

    first = test(r["choices"])
    if first is None:
        print("not reproduced")
        return 3
    cur, tries = shrink_list(first, test, time.monotonic() + secs)
    o = run_one(run, Choices(replay=cur), hs)
    if not o.viol or o.viol.cls != r["class"]:
        print("not reproduced")
        return 3
    note = f"minimised from {len(r['choices'])} to {len(cur)} decisions in {tries} executions"
    save(outp, r["property"], engine, hs, o.viol.cls, o.viol.msg, o.choices.log, note, o.ctx.desc, o.ctx.trace)
    print(note)
    return 0


def main(run, engine):
    a = sys.argv[1:]
    if a[0] == "batch":
        batch(run, a[1:])
        rc = 0
    elif a[0] == "seed":
        print(run_seed(int(a[2]), a[1], int(a[3])))
        rc = 0
    elif a[0] == "replay":
        rc = replay(run, a[1])
    elif a[0] == "shrink":
        rc = shrink(run, a[1], a[2], float(a[3]), engine)
    else:
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
