#!/usr/bin/env python3
"""tools/mut.py [-j N] [-k SUBSTRING] FILE...: runs the checks on variants of /repo's committed tree, in scratch copies.

A file defines MUTANTS = [(name, expect, [(path, old, new), ...])]; expect is "quiet" (no check may alarm: all are run) or the ids of
checks of which at least one must alarm (only these are run). `old` may be a pair (old, nth) for the nth occurrence.
"""
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
COV = "/tmp/cov.txt"  # entry point -> checks that look at it, when there


def prepare(i):
    repo, cache = f"{ROOT}/repo{i}", f"{ROOT}/cache{i}"
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True, stdout=subprocess.PIPE).stdout.strip()
    if not os.path.exists(repo):
        os.makedirs(ROOT, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    else:
        subprocess.run(["git", "-C", repo, "fetch", "-q", "origin"], check=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--detach", "-f", head], check=True)
    if os.path.exists("/repo/Cargo.lock") and not os.path.exists(f"{repo}/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", repo)
    os.makedirs(cache, exist_ok=True)
    return repo, cache


def touched(edits, props):
    if not os.path.exists(COV):
        return props
    crates = set()
    for path, *_ in edits:
        top = path.split("/")[0]
        if top == "packages":
            return props
        d = os.path.dirname(f"/repo/{path}")
        while not os.path.exists(d + "/Cargo.toml"):
            d = os.path.dirname(d)
        t = open(d + "/Cargo.toml").read()
        crates.add(t.split('name = "', 1)[1].split('"', 1)[0].replace("-", "_"))
    if "astroport_pair" in crates:
        crates.add("astroport_pair_xyk_sale_tax")
    out = set()
    for l in open(COV):
        w = l.split()
        if w[0] in crates:
            out |= set(w[3:])
    return [p for p in props if p in out]


def run(job, slots, props):
    name, expect, edits = job
    i = slots.get()
    try:
        repo, cache = f"{ROOT}/repo{i}", f"{ROOT}/cache{i}"
        subprocess.run(["git", "-C", repo, "checkout", "-q", "-f", "."], check=True)
        for path, old, new in edits:
            p = f"{repo}/{path}"
            s = open(p).read()
            old, nth = old if isinstance(old, tuple) else (old, None)
            n = s.count(old)
            if n == 0 or nth is None and n != 1:
                return name, f"EDIT {path}: {n} occurrences of {old[:60]!r}", []
            at = -1
            for _ in range(1 if nth is None else nth):
                at = s.index(old, at + 1)
            open(p, "w").write(s[:at] + new + s[at + len(old):])
        env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=cache, DEBUG="1", VERIF_EVIDENCE=f"{cache}/evidence")
        e = subprocess.run([sys.executable, f"{V}/engine/extract.py"], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if e.returncode:
            return name, "BUILD", [x for x in e.stdout.splitlines() if "error" in x][:5] + e.stdout.splitlines()[-12:]
        todo = touched(edits, props) if expect == "quiet" else expect.split()
        alarms, why = [], []
        for p in todo:
            c = subprocess.run([sys.executable, f"{V}/engine/check.py", p], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode or "VIOLATION" in c.stdout:
                alarms.append(p)
                why += [x for x in c.stdout.splitlines() if x.startswith(p)][:3] or c.stdout.splitlines()[-3:]
        fine = (not alarms) if expect == "quiet" else bool(alarms)
        return name, ("ok   " if fine else "WRONG") + " " + (" ".join(alarms) or "quiet"), [] if fine and "-v" not in sys.argv else why
    finally:
        slots.put(i)


def main():
    a = sys.argv[1:]
    n = int(a[a.index("-j") + 1]) if "-j" in a else 3
    k = a[a.index("-k") + 1] if "-k" in a else ""
    files = [x for x in a if x.endswith(".py")]
    jobs = [m for f in files for m in runpy.run_path(f)["MUTANTS"] if k in m[0]]
    sys.path.insert(0, f"{V}/tools")
    import json

    props = [c["property"] if "property" in c else c["id"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
    slots = Queue()
    for i in range(min(n, len(jobs))):
        prepare(i)
        slots.put(i)
    with ThreadPoolExecutor(n) as ex:
        for done in as_completed([ex.submit(run, j, slots, props) for j in jobs]):
            name, res, why = done.result()
            print(f"{res:24} {name}", flush=True)
            for w in why:
                print("      " + w[:260], flush=True)


main()
