"""Builds what a check needs from the working tree of the repository, in /verif/target."""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
CRATES = ["phlite", "phlite_rips", "phlite_grpph"]
ENGINE = {"C08": "cli", "C09": "py"}


# how the Rust simulator is built: cargo options, wrapper of rustc, directory cargo puts it in
VARIANTS = {
    "debug": ([], None, "debug"),
    "release": (["--release"], None, "release"),
    # calls the scheduler at every basic block, load and store of the code under simulation
    "fine": ([], os.path.join(HERE, "vlib", "fine_rustc.sh"), "debug"),
}
# what these properties share between clients never leaves one thread
ONE_THREAD = {"C05", "C06"}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "LD_PRELOAD", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, subs, files in os.walk(root):
        subs[:] = sorted(x for x in subs if x not in skip)
        for f in sorted(files):
            if not f.endswith((".rs", ".toml", ".lock")):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd, what, extra={}):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=dict(env(), **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise BuildError(f"{what} does not build (cargo exit {p.returncode})")


def fresh(tdir, names, cwd, stamp):
    """cargo decides by file times; when the content changed under it, forget what was built from the repository."""
    f = os.path.join(tdir, "source.stamp")
    old = open(f).read() if os.path.exists(f) else None
    if old is not None and old != stamp:
        for n in names:
            for extra in ([], ["--release"]):
                subprocess.run(["cargo", "clean", "--offline", "--target-dir", tdir, "-p", n] + extra, cwd=cwd, env=env(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(tdir, exist_ok=True)
    with open(f, "w") as fh:
        fh.write(stamp)


def sim(prop):
    """The Rust simulator of one property with the repository's crates inside, in every variant."""
    cwd = os.path.join(HERE, "sim")
    stamp = tree_hash(REPO, {"target", ".git"}) + tree_hash(cwd, {"target"})
    variants = [v for v in VARIANTS if v != "fine" or prop not in ONE_THREAD]

    def one(variant):
        options, wrapper, sub = VARIANTS[variant]
        tdir = os.path.join(TARGET, {"debug": "sim"}.get(variant, "sim-" + variant))
        fresh(tdir, CRATES + ["phlite_sim"], cwd, stamp)
        features = prop.lower() + (",fine" if variant == "fine" else "")
        cargo(["build", "--offline", "--target-dir", tdir, "--features", features] + options, cwd, "the simulator",
              {"RUSTC_WRAPPER": wrapper} if wrapper else {})
        # one binary per property: checks may run side by side
        dst = os.path.join(TARGET, "bin", f"phlite_sim-{prop}-{variant}")
        put(os.path.join(tdir, sub, "phlite_sim"), dst)
        return dst

    with concurrent.futures.ThreadPoolExecutor(len(variants)) as ex:
        return dict(zip(variants, ex.map(one, variants)))


def put(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = f"{dst}.{os.getpid()}"
    shutil.copy2(src, tmp)
    os.replace(tmp, dst)


def release(package):
    """A shipped artefact, built in the repository's own workspace as its users get it."""
    tdir = os.path.join(TARGET, "repo")
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    fresh(tdir, CRATES, REPO, tree_hash(REPO, {"target", ".git"}))
    cargo(["build", "--offline", "--release", "--target-dir", tdir, "-p", package], REPO, package)
    after = open(lock, "rb").read() if os.path.exists(lock) else None
    if before != after:
        if before is None:
            os.remove(lock)
        else:
            with open(lock, "wb") as f:
                f.write(before)
    rel = os.path.join(tdir, "release")
    if package == "phlite_rips":
        dst = os.path.join(TARGET, "bin", "phlite_rips_cli")
        put(os.path.join(rel, "phlite_rips_cli"), dst)
    else:
        dst = os.path.join(TARGET, "bin", "py", "phlite_grpph.so")
        put(os.path.join(rel, "libphlite_grpph.so"), dst)
    return dst


def shim(name, sources):
    dst = os.path.join(TARGET, "bin", name)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = f"{dst}.{os.getpid()}"
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-Wall", "-o", tmp] + [os.path.join(HERE, "shim", x) for x in sources] + ["-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout)
        raise BuildError(f"{name} does not build")
    os.replace(tmp, dst)
    return dst


def engine_for(prop):
    """({variant: command prefix}, extra environment) of the simulator deciding this property, freshly built."""
    os.makedirs(TARGET, exist_ok=True)
    t0 = time.monotonic()
    with open(os.path.join(TARGET, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        kind = ENGINE.get(prop, "sim")
        if kind == "sim":
            cmds, extra = {k: [v] for k, v in sim(prop).items()}, {}
        elif kind == "cli":
            cmds = {"release": ["/usr/bin/python3", os.path.join(HERE, "vlib", "cli.py")]}
            extra = {"SIM_CLI": release("phlite_rips"), "SIM_SHIM": shim("shim.so", ["shim.c", "clock.c"])}
        else:
            cmds = {"release": ["/usr/bin/python3", os.path.join(HERE, "vlib", "pysim.py")]}
            extra = {"SIM_MODULE": release("phlite_grpph"), "LD_PRELOAD": shim("clock.so", ["clock.c"])}
    return kind, cmds, extra, time.monotonic() - t0
