#!/usr/bin/env python3
"""C18, C19: run the recorded workload under other configurations and instruments, then judge.

Every run is one process of harness/src/bin/portable.rs over some records; what each of them
observed is compared (C18) or searched for reports of the instrument (C19) by `check --runs`.
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
PROP = sys.argv[1]
SEED = os.environ.get("VERIF_SEED", "1")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
HOST = "x86_64-unknown-linux-gnu"
# A record of the interpreted workload takes seconds to minutes; more than this is a hang.
LIMIT = 3000 if THOROUGH else 700
# On a slow or busy machine the last records are left out rather than giving no answer at all; the
# judge insists on a minimum of records from every instrument.
ENOUGH = 10000 if THOROUGH else 480
START = time.time()

# Miri perturbs the last bits of float functions at random unless told not to.
MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-deterministic-floats "


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", ASAN_OPTIONS="detect_leaks=0")
    e.update(kw)
    return e


def run(cmd, log, cwd=HARNESS, limit=LIMIT, **kw):
    """Status of the command; what it printed goes to `log`."""
    with open(log, "ab") as f:
        try:
            return subprocess.run(
                cmd, cwd=cwd, env=env(**kw), stdout=f, stderr=f, stdin=subprocess.DEVNULL, timeout=limit
            ).returncode
        except subprocess.TimeoutExpired:
            f.write(b"\nMLXMON-TIMEOUT\n")
            return 124


def status(rc):
    return 128 - rc if rc < 0 else rc


class Work:
    def __init__(self, scratch):
        self.scratch = scratch
        self.runs = []
        self.gen = os.path.join(TARGET, "release", "portable")

    def path(self, name):
        return os.path.join(self.scratch, name)

    def add(self, name, kind, rc):
        self.runs.append((name, kind, status(rc), self.path(name + ".log"), self.path(name + ".out")))
        return rc

    def build(self, name, kind, cmd, **kw):
        """Build something; a failure is a finished run of its own."""
        rc = run(cmd, self.path(name + ".log"), limit=900, **kw)
        if rc != 0:
            self.add(name, kind, rc)
            return False
        return True

    def records(self, name, first, last):
        """Write records first..last for a run of that name."""
        rc = run([self.gen, "gen", self.path(name + ".rec"), SEED, str(first), str(last)], self.path(name + ".log"))
        if rc != 0:
            sys.exit("cannot write the records: " + open(self.path(name + ".log")).read()[-2000:])

    def go(self, name, kind, prefix, first, last, quiet=False, **kw):
        if time.time() - START > ENOUGH:
            return 0
        self.records(name, first, last)
        cmd = prefix + ["run", self.path(name + ".rec"), self.path(name + ".out"), str(first)]
        rc = run(cmd + (["quiet"] if quiet else []), self.path(name + ".log"), **kw)
        return self.add(name, kind, rc)

    def judge(self):
        listing = self.path("runs")
        with open(listing, "w") as f:
            for r in sorted(self.runs):
                f.write(" ".join(map(str, r)) + "\n")
        check = os.path.join(TARGET, "release", "check")
        return subprocess.run([check, PROP, "--runs", listing], cwd=HARNESS).returncode


def native(feature, target_dir, profile="release"):
    cmd = ["cargo", "build", "--offline", "--bin", "portable", "--profile", profile, "--target-dir", target_dir]
    return cmd + ([] if feature == "std" else ["--no-default-features", "--features", "libm-backend"])


def miri(target, feature, target_dir):
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", target_dir]
    if target:
        cmd += ["--target", target]
    if feature == "libm":
        cmd += ["--no-default-features", "--features", "libm-backend"]
    return cmd + ["--bin", "portable", "--"]


# Records in the order to start them under Miri: some of each sort, then those which take long.
def turn(rec):
    return (rec >= 8, -(32, 11, 5, 1)[rec % 4])


def c18(w, pool):
    n_native = 4000 if THOROUGH else 400
    n_miri = 160 if THOROUGH else 16
    n_few = 160 if THOROUGH else 8
    t = lambda d: os.path.join(TARGET, d)
    arches = [
        ("i686", "i686-unknown-linux-gnu", "std", n_few),
        ("s390x", "s390x-unknown-linux-gnu", "std", n_miri),
        ("armv7", "armv7-unknown-linux-gnueabihf", "libm", n_few),
        ("aarch64", "aarch64-unknown-linux-gnu", "std", n_few // 2),
    ]

    def libm():
        if w.build("libm", "libm", native("libm", t("libm"))):
            w.go("libm", "libm", [t("libm/release/portable")], 0, n_native)

    def plain():
        if w.build("plain", "plain", native("std", TARGET, "plain")):
            w.go("plain", "plain", [t("plain/portable")], 0, n_native)

    def bare():
        # With a floating point unit; without one nor atomic operations; another architecture.
        for target in ("thumbv7em-none-eabihf", "thumbv6m-none-eabi", "riscv32imc-unknown-none-elf"):
            name = "bare-" + target.split("-")[0]
            cmd = ["cargo", "+nightly", "build", "-Zbuild-std=core", "--target", target]
            cmd += ["--offline", "--target-dir", t("bare")]
            if w.build(name, "bare", cmd, cwd=os.path.join(HERE, "bare")):
                with open(w.path(name + ".out"), "w") as f:
                    f.write("END\n")
                w.add(name, "bare", 0)

    def sysroot(name, target, feature):
        # An empty run builds the sysroot and the workload.
        flags = MIRI + "-Zmiri-disable-stacked-borrows"
        w.records(name + "-build", 0, 0)
        cmd = miri(target, feature, t("miri-" + name))
        cmd += ["run", w.path(name + "-build.rec"), w.path(name + "-build.out"), "0"]
        return w.build(name + "-build", name, cmd, MIRIFLAGS=flags)

    w.go("base", "base", [w.gen], 0, max(n_native, n_miri))
    builds = [pool.submit(f) for f in (libm, plain, bare)]
    ready = {a[0]: pool.submit(sysroot, *a[:3]) for a in arches}
    ok = [a for a in arches if ready[a[0]].result()]
    jobs = sorted(((r, a) for a in ok for r in range(a[3])), key=lambda j: turn(j[0]))
    runs = []
    for rec, (name, target, feature, _) in jobs:
        runs.append(
            pool.submit(
                w.go, f"{name}-{rec}", name, miri(target, feature, t("miri-" + name)), rec, rec + 1,
                MIRIFLAGS=MIRI + "-Zmiri-disable-stacked-borrows",
            )
        )
    for f in builds + runs:
        f.result()


def c19(w, pool):
    n_miri = 160 if THOROUGH else 20
    n_asan = 40000 if THOROUGH else 2400
    t = lambda d: os.path.join(TARGET, d)
    # Memory handed from thread to thread would order them and hide races.
    flags = MIRI + "-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check "
    flags += "-Zmiri-address-reuse-cross-thread-rate=0"
    w.records("miri-build", 0, 0)
    cmd = miri(None, "std", t("miri")) + ["run", w.path("miri-build.rec"), w.path("miri-build.out"), "0"]
    asan = ["cargo", "+nightly", "build", "--offline", "--release", "--bin", "portable"]
    asan += ["--target", HOST, "--target-dir", t("asan")]
    a = pool.submit(w.build, "asan-build", "asan", asan, RUSTFLAGS="-Zsanitizer=address")
    m = pool.submit(w.build, "miri-build", "miri", cmd, MIRIFLAGS=flags)
    runs = []
    if m.result():
        for rec in sorted(range(n_miri), key=turn):
            runs.append(
                pool.submit(w.go, f"miri-{rec}", "miri", miri(None, "std", t("miri")), rec, rec + 1, MIRIFLAGS=flags)
            )
    if a.result():
        binary = [t(f"asan/{HOST}/release/portable")]
        step = n_asan // 24
        for first in range(0, n_asan, step):
            runs.append(
                pool.submit(w.go, f"asan-{first}", "asan", binary, first, first + step, quiet=True)
            )
    for f in runs:
        f.result()


def main():
    os.makedirs(TARGET, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="runs-", dir=TARGET)
    try:
        w = Work(scratch)
        log = w.path("build.log")
        cmd = ["cargo", "build", "--release", "--offline", "--bin", "check", "--bin", "portable"]
        if run(cmd, log, limit=900) != 0:
            print(open(log, errors="replace").read()[-6000:], file=sys.stderr)
            print("the harness does not build against /repo", file=sys.stderr)
            return 2
        os.environ["MLXMON_SINCE"] = f"{START:.3f}"
        with cf.ThreadPoolExecutor(8) as pool:
            {"C18": c18, "C19": c19}[PROP](w, pool)
        return w.judge()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
