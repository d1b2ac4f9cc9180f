#!/usr/bin/python3
"""check.py PROP             seeded search for violations of one property (VERIF_SEED, VERIF_TIER)
check.py PROP --replay FILE  play a recorded execution again

Exit 0: held on everything explored. Exit 1: violated, with a VIOLATION line. Exit 2: the check itself failed."""
import concurrent.futures
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build, engine  # noqa: E402
from vlib.props import PROPS  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 8)
STALL = 90.0  # a run takes milliseconds; one that makes no progress for this long hangs
MEM = 3 << 30
DEADLOCK_EXIT = 77


def err(*a):
    print(*a, file=sys.stderr, flush=True)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Proc:
    """A simulator process in a process group of its own."""

    def __init__(self, cmd, extra):
        e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SIM_LOG", "SIM_SECONDS", "RUST_LOG")}
        e.update(extra)
        e.setdefault("RUST_BACKTRACE", "0")
        self.out = tempfile.TemporaryFile()
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, env=e, preexec_fn=limits,
                                  start_new_session=True, cwd=HERE)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def wait(self, secs):
        try:
            self.p.wait(timeout=secs)
            return True
        except subprocess.TimeoutExpired:
            return False

    def text(self):
        r = []
        for f in (self.out, self.err):
            f.seek(0)
            r.append(f.read().decode("utf8", "replace"))
            f.close()
        return r


def died(rc):
    """What it means when a simulator process ends by itself like this: a class of violation, or None."""
    if rc == DEADLOCK_EXIT:
        return "deadlock"
    if rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
        return None
    if rc < 0:
        return "crash"
    return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = PROPS[prop]
        self.kind, self.cmds, self.extra, self.build_s = build.engine_for(prop)
        self.any = next(iter(self.cmds))
        self.tmp = tempfile.mkdtemp(prefix="phlite-verif-")
        self.lock = threading.Lock()
        self.stop_above = None  # chunks starting above this index are pointless
        self.harness = []

    def variant(self, index):
        """The build that run INDEX is made with: one chunk in four without debug assertions, one preempted between seams."""
        k = index // self.conf["chunk"] % 4
        want = {1: "fine", 3: "release"}.get(k, "debug")
        return want if want in self.cmds else self.any

    # ---- single executions -------------------------------------------------
    def play(self, path, secs, log=None):
        """(class or None, output) of one recorded execution in a fresh process."""
        extra = dict(self.extra)
        if log:
            extra["SIM_LOG"] = log
        r = engine.load(path)
        if "batch" in r:
            return self.play_batch([int(x) for x in r["batch"].split()], secs)
        p = Proc(self.cmds[r.get("variant", self.any)] + ["replay", path], extra)
        if not p.wait(secs):
            p.kill()
            return "hang", "".join(p.text()) + f"no end within {secs:.0f} s\n"
        out, er = p.text()
        rc = p.p.returncode
        if rc == 0:
            return None, out
        cls = died(rc)
        if cls:
            return cls, out + er[-2000:] + f"process ended with {rc}\n"
        for line in out.splitlines():
            if line.startswith("reproduced: class "):
                return line.split()[2], out
        return "harness", out + er

    def play_batch(self, spec, secs):
        """A violation that needs what earlier runs left in the process."""
        seed, start, count = spec
        p = Proc(self.cmds[self.variant(start)] + ["batch", self.prop, str(seed), str(start), str(count), os.path.join(self.tmp, f"pb{threading.get_ident()}")], self.extra)
        if not p.wait(secs + count):
            p.kill()
            return "hang", "".join(p.text())
        out, er = p.text()
        cls = died(p.p.returncode)
        if cls:
            return cls, out + er[-2000:]
        for line in out.splitlines():
            if line.startswith("V "):
                v = json.loads(line[2:])
                return v["class"], f"seed index {v['index']}: {v['msg']}\n"
        return None, out

    # ---- batches -----------------------------------------------------------
    def chunk(self, start, count, tag, digests=False):
        pf = os.path.join(self.tmp, f"p-{tag}-{start}")
        extra = dict(self.extra, SIM_SECONDS=f"{max(1.0, self.deadline - time.monotonic()):.1f}")
        with self.lock:
            if self.stop_above is not None and start > self.stop_above:
                return None
        if time.monotonic() > self.deadline:
            return None
        p = Proc(self.cmds[self.variant(start)] + ["batch", self.prop, str(self.seed), str(start), str(count), pf] + (["digests"] if digests else []), extra)
        last, since = None, time.monotonic()
        hung = False
        while not p.wait(0.25 if self.kind == "sim" else 0.25):
            try:
                cur = open(pf).read()
            except OSError:
                cur = None
            if cur != last:
                last, since = cur, time.monotonic()
            elif time.monotonic() - since > STALL:
                p.kill()
                hung = True
                break
            with self.lock:
                if self.stop_above is not None and start > self.stop_above:
                    p.kill()
                    p.text()
                    return None
        out, er = p.text()
        try:
            idx = int(open(pf).read().split()[0])
        except (OSError, ValueError, IndexError):
            idx = start
        res = {"start": start, "count": count, "v": None, "s": None}
        for line in out.splitlines():
            if line.startswith("V "):
                res["v"] = json.loads(line[2:])
            elif line.startswith("S "):
                res["s"] = json.loads(line[2:])
        rc = p.p.returncode
        if hung:
            res["v"] = {"index": idx, "class": "hang", "msg": f"run {idx} made no progress for {STALL:.0f} s", "choices": None}
        elif rc != 0 and not res["v"]:
            cls = died(rc)
            if cls:
                res["v"] = {"index": idx, "class": cls, "msg": f"the process ended with {rc}: {er[-300:].strip()}", "choices": None}
            else:
                with self.lock:
                    self.harness.append(f"worker for runs {start}.. ended with {rc} at run {idx}: {er[-1500:]}")
                return res
        elif not res["s"] and not res["v"]:
            with self.lock:
                self.harness.append(f"worker for runs {start}.. gave no summary: {er[-1500:]}")
        if res["v"] and res["v"]["class"] == "harness":
            with self.lock:
                self.harness.append(f"run {res['v']['index']}: {res['v']['msg']}")
            res["v"] = None
        if res["v"]:
            with self.lock:
                i = res["v"]["index"]
                self.stop_above = i if self.stop_above is None else min(i, self.stop_above)
        os.path.exists(pf) and os.remove(pf)
        return res

    def search(self):
        runs, cap = self.conf[self.tier]
        size = self.conf["chunk"]
        self.deadline = time.monotonic() + cap
        t0 = time.monotonic()
        starts = list(range(0, runs, size))
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            results = [r for r in ex.map(lambda s: self.chunk(s, min(size, runs - s), "a"), starts) if r]
        self.search_s = time.monotonic() - t0
        return results

    # ---- violations --------------------------------------------------------
    def write(self, path, v, note, choices=None, run_seed=None, batch=None, shown=()):
        with open(path, "w", encoding="utf8") as f:
            f.write(f"property: {self.prop}\nengine: {self.kind}\nclass: {v['class']}\nmessage: {engine.one(v['msg'])}\n")
            f.write(f"variant: {self.variant(v['index'])}\nhash_seed: {v['hash_seed']}\nnote: {engine.one(note)}\n")
            if batch:
                f.write("batch: " + " ".join(map(str, batch)) + "\n")
            elif run_seed is not None:
                f.write(f"run_seed: {run_seed}\n")
            else:
                f.write("choices: " + " ".join(map(str, choices)) + "\n")
            for line in shown:
                f.write(engine.one(line) + "\n")

    def minimise(self, v, budget):
        """A replay file for this violation that fails again in a fresh process, or None."""
        rep = os.path.join(HERE, "replays")
        os.makedirs(rep, exist_ok=True)
        raw = os.path.join(self.tmp, "raw.replay")
        small = os.path.join(self.tmp, "small.replay")
        if v.get("hash_seed") is None:
            p = subprocess.run(self.cmds[self.any] + ["seed", self.prop, str(self.seed), str(v["index"])], stdout=subprocess.PIPE, text=True,
                               env=dict(os.environ, **self.extra))
            v["hash_seed"] = int(p.stdout)
        slow = STALL if v["class"] == "hang" else 120.0
        end = time.monotonic() + budget
        best = None
        if v.get("choices") is not None:
            self.write(raw, v, "as found", choices=v["choices"])
        else:
            self.write(raw, v, "as found", run_seed=v["hash_seed"])
        log = os.path.join(self.tmp, "choices.log")
        got = None
        for i in range(4):
            if i == 2 and v.get("choices") is not None:
                # too long for its decisions to be kept?
                self.write(raw, v, "as found", run_seed=v["hash_seed"])
            got, out = self.play(raw, slow, log)
            if got and got != "harness":
                if i >= 2 and v.get("choices") is not None:
                    v["choices"] = None
                break
        if got and got != "harness":
            v["class"] = got
            if v.get("choices") is None:
                try:
                    v["choices"] = [int(x) for x in open(log).read().split()]
                except (OSError, ValueError):
                    v["choices"] = []
            self.write(raw, v, "as found", choices=v["choices"])
            again, _ = self.play(raw, slow)
            if again != got:
                self.write(raw, v, "as found", run_seed=v["hash_seed"])
                if self.play(raw, slow)[0]:
                    best = raw
            elif got in ("hang", "crash", "deadlock"):
                best = self.shrink_outside(v, raw, small, got, end)
            else:
                best = raw
                p = Proc(self.cmds[self.variant(v["index"])] + ["shrink", raw, small, f"{max(5.0, end - time.monotonic()):.0f}"], self.extra)
                if p.wait(max(5.0, end - time.monotonic()) + 60) and p.p.returncode == 0:
                    body = open(small, encoding="utf8").read()
                    with open(small, "w", encoding="utf8") as f:
                        f.write(body.replace("\nhash_seed: ", f"\nvariant: {self.variant(v['index'])}\nhash_seed: ", 1))
                    c, out = self.play(small, slow)
                    if c == got:
                        best = small
                else:
                    p.kill()
        else:
            # only after earlier runs in the same process
            k = 1
            while best is None and k <= 2 * self.conf["chunk"]:
                k = min(k, v["index"] + 1, v["index"] - v["index"] // self.conf["chunk"] * self.conf["chunk"] + 1)
                spec = [self.seed, v["index"] - k + 1, k]
                if self.play_batch(spec, 120.0)[0]:
                    self.write(raw, v, f"needs the {k - 1} runs before it in one process", batch=spec)
                    best = raw
                elif k == v["index"] + 1 or k > v["index"] % self.conf["chunk"]:
                    break
                k *= 4
        if best is None:
            return None
        body = open(best, encoding="utf8").read()
        dst = os.path.join(rep, f"{self.prop}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.replay")
        with open(dst, "w", encoding="utf8") as f:
            f.write(body)
        return dst

    def shrink_outside(self, v, raw, small, cls, end):
        """Minimise an execution that takes its process down with it."""
        each = 6.0 if cls == "hang" else 30.0
        if cls == "hang":
            # is a short wait enough to tell?
            self.write(small, v, "", choices=[])
            if self.play(small, each)[0] == "hang":
                return raw
        log = os.path.join(self.tmp, "shrink.log")

        def test(c):
            self.write(small, v, "candidate", choices=c)
            got, _ = self.play(small, each, log)
            if got != cls:
                return None
            try:
                return [int(x) for x in open(log).read().split()]
            except (OSError, ValueError):
                return c

        cur, tries = engine.shrink_list(v["choices"], test, end)
        self.write(small, v, "", choices=cur)
        got, out = self.play(small, STALL if cls == "hang" else 60.0)
        if got != cls:
            return raw
        shown = [x for x in out.splitlines() if x.startswith(("case: ", "trace: ", "DEADLOCK"))]
        self.write(small, v, f"minimised from {len(v['choices'])} to {len(cur)} decisions in {tries} executions", choices=cur, shown=shown)
        return small

    def known(self, v):
        """The open entry of known_findings.txt that lists this violation."""
        try:
            lines = open(os.path.join(HERE, "known_findings.txt"), encoding="utf8").read().splitlines()
        except OSError:
            return None
        for line in lines:
            if not line.startswith("open: "):
                continue
            d = dict(x.split("=", 1) for x in line[6:].split(" | "))
            if d["property"] == self.prop and d["class"] == v["class"] and d["key"] in v["msg"]:
                return d
        return None

    # ---- determinism -------------------------------------------------------
    def recheck(self, results):
        """Some chunks once more, in fresh processes, alone: the executions have to be the same ones."""
        done = [r for r in results if r["s"] and not r["v"] and r["s"]["runs"] == r["count"]]
        if not done:
            return {"chunks": 0, "runs": 0, "differing": 0}
        n = 2 if self.tier == "quick" else 16
        pick = [done[(i * len(done)) // n] for i in range(min(n, len(done)))]
        self.deadline = time.monotonic() + 300
        extra = dict(self.extra)
        self.extra = dict(extra, PYTHONHASHSEED=str(1 + self.seed % 1000))
        with concurrent.futures.ThreadPoolExecutor(min(3, WORKERS)) as ex:
            again = list(ex.map(lambda r: self.chunk(r["start"], r["count"], "b"), pick))
        self.extra = extra
        bad = [a["start"] for a, b in zip(pick, again) if b and b["s"] and b["s"]["runs"] == a["count"] and b["s"]["digest"] != a["s"]["digest"]]
        return {"chunks": len(pick), "runs": sum(a["count"] for a in pick), "differing": len(bad)}


def evidence(ck, results, det, viols, t0, level_wall):
    s = [r["s"] for r in results if r["s"]]
    tot = {k: sum(x[k] for x in s) for k in ("runs", "steps", "switches", "draws", "discards")}
    counts = {}
    for x in s:
        for k, n in x["counts"].items():
            counts[k] = counts.get(k, 0) + n
    distinct = set()
    for x in s:
        distinct.update(int(d, 16) for d in x["distinct"])
    samples = [y for x in s[:3] for y in x["samples"]][:4]
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe.")}
    other = {k: v for k, v in sorted(counts.items()) if not k.startswith(("fault.", "probe."))}
    hour = 3600.0 / max(ck.search_s, 1e-9)
    c = ck.conf
    cov = {
        "evaluations": tot["runs"] - tot["discards"],
        "distinct_nontrivial": len(distinct),
        "rule": c["rule"],
        "samples": samples,
        "simulated_runs_per_hour": round(tot["runs"] * hour),
        "seeds_per_hour": round(tot["runs"] * hour),
        "simulated_time": f"{tot['steps']} simulator steps ({c['step']}); looks of the code under test at the simulated clock: {counts.get('op.clock_looked_at', 0)}",
        "simulated_steps": tot["steps"],
        "steps_of_the_longest_run": max((x["longest"] for x in s), default=0),
        "context_switches": tot["switches"],
        "decisions_drawn": tot["draws"],
        "distinct_interleavings": sum(x["schedules"] for x in s),
        "interleaving_measure": "digest of the sequence of (step, thread switched to); counted per worker chunk and added up",
        "faults_injected": faults,
        "probes_hit": probes,
        "workload": other,
        "components_real": c["real"],
        "components_stub": c["stub"],
        "determinism_recheck": det,
        "workers": WORKERS,
        "runs_per_build": {k: sum(r["s"]["runs"] for r in results if r["s"] and ck.variant(r["start"]) == k) for k in ck.cmds},
        "build_s": round(ck.build_s, 1),
        "search_s": round(ck.search_s, 1),
    }
    ev = {"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": "exploration", "coverage": cov,
          "assumptions": c["assumptions"], "wall_s": round(time.monotonic() - t0, 1), "violations": viols}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{ck.prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def main():
    t0 = time.monotonic()
    a = sys.argv[1:]
    if not a or a[0] not in PROPS:
        err("usage: check.py PROPERTY [--replay FILE]")
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    try:
        ck = Check(a[0], tier, seed)
    except build.BuildError as e:
        err(f"build: {e}")
        return 2
    try:
        if len(a) >= 3 and a[1] == "--replay":
            cls, out = ck.play(os.path.abspath(a[2]), 120.0)
            sys.stdout.write(out)
            if cls == "harness":
                return 2
            if cls:
                print(f"VIOLATION property={ck.prop} replay={os.path.abspath(a[2])}")
                return 1
            return 0
        results = ck.search()
        found = sorted((r["v"] for r in results if r["v"]), key=lambda v: v["index"])
        bad, known = [], {}
        for v in found:
            k = ck.known(v)
            if k:
                known[k["key"]] = k
            else:
                bad.append(v)
        for k in known.values():
            print(f"KNOWN-FINDING: property={ck.prop} {k['what']}")
        rc = 0
        if bad:
            budget = 60.0 if tier == "quick" else 300.0
            path = None
            for v in bad[:4]:
                path = ck.minimise(v, budget)
                if path:
                    break
            evidence(ck, results, {"chunks": 0}, len(bad), t0, None)
            if path is None:
                err(f"a violation did not replay: {bad[0]['class']} at seed index {bad[0]['index']}: {bad[0]['msg'][:500]}")
                return 2
            r = engine.load(path)
            print(f"seed {seed} index {v['index']} class {r['class']}: {r['message'][:600]}")
            print(f"replay: {' '.join(['./check.py', ck.prop, '--replay', path])}")
            print(f"VIOLATION property={ck.prop} replay={path}")
            rc = 1
        elif ck.harness:
            err("harness: " + "\n".join(ck.harness[:3]))
            rc = 2
        else:
            det = ck.recheck(results)
            if det["differing"]:
                err(f"warning: {det['differing']} of {det['chunks']} chunks ran differently the second time")
            evidence(ck, results, det, 0, t0, None)
            n = sum(r["s"]["runs"] for r in results if r["s"])
            print(f"{ck.prop}: held in {n} simulated runs ({ck.search_s:.0f} s search, {ck.build_s:.0f} s build)")
        return rc
    finally:
        import shutil
        shutil.rmtree(ck.tmp, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
