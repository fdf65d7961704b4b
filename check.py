#!/usr/bin/env python3
"""Decides one property of sparsey from the source in /repo.

usage: check.py <property> [--tier quick|thorough] [--repo DIR] [--rule ID ...]

Dumps the type-checked MIR of the current working tree with the compiler driver in driver/, runs
every rule that can produce obligations for the property and reports each violated obligation with
the function, position and path conditions. Exit 0: no obligation is violated. Exit 1: some are.
Exit 2: no verdict (the tree or the driver does not build).
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver():
    exe = os.path.join(HERE, "driver/target/release/mirdump")
    src = [os.path.join(HERE, "driver/src", f) for f in os.listdir(os.path.join(HERE, "driver/src"))]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(f) for f in src):
        return exe
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(HERE, "driver"))
    if not os.path.exists(exe) or r.returncode:
        print(r.stdout)
        sys.exit("cannot build the compiler driver")
    return exe


def dump(repo, features, tmp):
    """Type-checks a copy of the tree (in tmp) with the driver; returns the dump file."""
    exe = driver()
    out = os.path.join(tmp, "mir.json")
    t = os.path.join(tmp, "tree")
    os.mkdir(t)
    for f in os.listdir(repo):
        if f in (".git", "target"):
            continue
        s = os.path.join(repo, f)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(t, f), symlinks=True)
        else:
            shutil.copy2(s, os.path.join(t, f))
    env = dict(os.environ)
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_CRATE="sparsey", MIRDUMP_OUT=out,
               MIRDUMP_STOP=os.path.join(HERE, "driver/stop.txt"), CARGO_TARGET_DIR=os.path.join(t, "sa-target"))
    for v in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    r = sh(["cargo", "+nightly", "check", "--offline", "--lib"] + features, cwd=t, env=env)
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-4000:])
        raise SystemExit(2)
    return out


def findings():
    """Known findings: lines 'known: property=<id> key=<rule/label@function> <text>'."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                w = line.split()
                pid = w[1].split("=", 1)[1]
                key = line.split("key=", 1)[1].split(" :: ")[0].strip()
                out.append((pid, key, line.split(" :: ", 1)[1] if " :: " in line else ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dump", help="use an existing dump (development)")
    ap.add_argument("--rule", action="append")
    a = ap.parse_args()
    t0 = time.time()
    from sa.prog import Program
    from sa import core, specs  # noqa: F401
    from sa.report import evidence, report
    tmp = tempfile.mkdtemp(prefix="sparsey-sa-")
    try:
        f = a.dump or dump(a.repo, ["--all-features"], tmp)
        P = Program(f)
        t1 = time.time()
        core.TOTAL_END = t0 + 600
        R = core.Runner(P, a.property, a.tier)
        R.run(a.rule, jobs=min(8, os.cpu_count() or 1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    code = report(R, a.property, findings(), HERE)
    evidence(R, a.property, a.tier, HERE, time.time() - t0, t1 - t0)
    sys.exit(code)


if __name__ == "__main__":
    main()
