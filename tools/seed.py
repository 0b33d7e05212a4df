"""python3 tools/seed.py FILE...: writes /verif/seeded/<id>/ from a seed description (a Python file defining ID, PROPERTY,
NEEDS, BREAKS, EDITS=[(file, old, new)], DEPS={crate: path or version}, MAIN)."""
import difflib, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STD = {"cosmwasm-std": '"1.5"'}


def make(path):
    g = {}
    exec(compile(open(path).read(), path, "exec"), g)
    d = f"{V}/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in g["EDITS"]:
        s = files.get(f) or open(f"{REPO}/{f}").read()
        n = s.count(old)
        if n != 1:
            raise SystemExit(f"{g['ID']}: {n} matches in {f} for {old[:60]!r}")
        files[f] = s.replace(old, new)
    out = ""
    for f, s in files.items():
        a = open(f"{REPO}/{f}").read().splitlines(True)
        b = s.splitlines(True)
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a, b, f"a/{f}", f"b/{f}"))
    open(f"{d}/patch.diff", "w").write(out)
    subprocess.run(["git", "-C", REPO, "apply", "--check", f"{d}/patch.diff"], check=True)
    shutil.copy(f"{V}/tools/seedlib/demo.sh", f"{d}/demo.sh")
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(g["MAIN"])
    deps = dict(STD)
    for k, v in g.get("DEPS", {}).items():
        deps[k] = v
    t = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
    for k, v in deps.items():
        t += f"{k} = " + (v if v[0] in '"{' else '{ path = "../%s" }' % v) + "\n"
    open(f"{d}/demo.toml", "w").write(t)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    return g["ID"]


if __name__ == "__main__":
    for p in sys.argv[1:]:
        print("wrote", make(p))
