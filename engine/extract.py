"""Compiles the current /repo tree with the mirdump driver and returns the directory holding the MIR dump."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
REPO = os.environ.get("VERIF_REPO", "/repo")
TC = "+nightly"


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit(f"analysis error: {' '.join(cmd)} failed with {p.returncode}")
    return p.stdout


def base_env():
    e = dict(os.environ)
    home = e.get("HOME", "/root")
    e["PATH"] = f"/root/.cargo/bin:/usr/local/cargo/bin:{e.get('PATH','')}"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(HOME=home, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def digest():
    h = hashlib.sha256()
    files = [f"{VERIF}/driver/src/main.rs", f"{HERE}/mkws.py", f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock"]
    for d in ("packages", "contracts"):
        for root, ds, fs in os.walk(f"{REPO}/{d}"):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".rs", ".toml"))]
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def driver(env):
    tgt = f"{CACHE}/driver-target"
    e = dict(env, CARGO_TARGET_DIR=tgt)
    sh(["cargo", TC, "build", "--offline", "--manifest-path", f"{VERIF}/driver/Cargo.toml"], env=e, cwd=f"{VERIF}/driver")
    return f"{tgt}/debug/mirdump"


def extract(quiet=False):
    """Returns the dump directory for exactly the current tree (content-addressed; rebuilt whenever a file differs)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest()
        out = f"{CACHE}/dump-{key}"
        if os.path.exists(f"{out}/DONE"):
            return out
        env = base_env()
        drv = driver(env)
        ws = f"{CACHE}/ws"
        info = json.loads(sh([sys.executable, f"{HERE}/mkws.py", REPO, ws]))
        dk = hashlib.sha256(open(f"{VERIF}/driver/src/main.rs", "rb").read()).hexdigest()[:12]
        tgt = f"{CACHE}/target-{dk}"
        regs = f"{CACHE}/registry-{dk}"
        for d in glob.glob(f"{CACHE}/target-*") + glob.glob(f"{CACHE}/registry-*"):
            if not d.endswith(dk):
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(regs, exist_ok=True)
        # cargo must re-run the driver on every workspace member
        pk = sh(["cargo", TC, "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=ws, env=env)
        names = [p["name"] for p in json.loads(pk[pk.index("{"):])["packages"]]
        shutil.rmtree(f"{tgt}/debug/incremental", ignore_errors=True)
        for n in names:
            for d in glob.glob(f"{tgt}/debug/build/{n}/*"):
                shutil.rmtree(d, ignore_errors=True)
            for d in glob.glob(f"{tgt}/debug/.fingerprint/{n}-*"):
                shutil.rmtree(d, ignore_errors=True)
        work = f"{CACHE}/work"
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        lib = subprocess.run(["rustc", TC, "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip() + "/lib"
        e = dict(env, CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER=drv, LD_LIBRARY_PATH=lib, MIRDUMP_OUT=work)
        sh(["cargo", TC, "check", "--workspace", "--offline"], cwd=ws, env=e)
        # registry crates are dumped when they are (re)built only: keep them with the target directory
        for f in glob.glob(f"{work}/*.jsonl"):
            if json.loads(open(f).readline())["registry"]:
                shutil.move(f, os.path.join(regs, os.path.basename(f)))
        got = {json.loads(open(f).readline())["name"] for f in glob.glob(f"{work}/*.jsonl")}
        want = set()
        for p in json.loads(pk[pk.index("{"):])["packages"]:
            for t in p["targets"]:
                if "lib" in t["kind"] or "cdylib" in t["kind"]:
                    want.add(t["name"].replace("-", "_"))
        if want - got:
            raise SystemExit(f"analysis error: no MIR for {sorted(want - got)}")
        for f in glob.glob(f"{regs}/*.jsonl"):
            shutil.copy(f, work)
        json.dump({"members": info, "crates": sorted(got), "key": key}, open(f"{work}/DONE", "w"))
        for d in glob.glob(f"{CACHE}/dump-*"):
            shutil.rmtree(d, ignore_errors=True)
        os.rename(work, out)
        return out


if __name__ == "__main__":
    print(extract())
