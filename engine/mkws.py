"""Generates an analysis workspace: /repo's cargo workspace without its (unreachable) git dependencies.

Same idea as the sandbox's own build, but library targets only (no tests, no dev-dependencies), and written to a
directory of ours. `src` of every member is a symlink into the repository, so the compiler reads the current tree.
Usage: mkws.py REPO WS"""
import glob
import json
import os
import re
import shutil
import sys
import tomllib

HELPER = "packages/astroport_test"  # test scaffolding only, not part of the product


def load(p):
    with open(p, "rb") as f:
        return tomllib.load(f)


def value(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


def dump(doc):
    out = []
    for name, table in doc.items():
        if isinstance(table, list):
            for item in table:
                out += [f"[[{name}]]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in item.items()]
        else:
            out += [f"[{name}]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in table.items()]
        out.append("")
    return "\n".join(out)


def main(repo, ws):
    if os.path.isdir(ws):
        shutil.rmtree(ws)
    root = load(f"{repo}/Cargo.toml")
    docs = {}
    for m in root["workspace"]["members"]:
        for p in sorted(glob.glob(os.path.join(repo, m))):
            if os.path.isfile(os.path.join(p, "Cargo.toml")):
                docs[os.path.relpath(p, repo)] = load(os.path.join(p, "Cargo.toml"))
    left = {m for m in docs if m == HELPER}
    while True:
        more = {
            m
            for m, d in docs.items()
            if m not in left
            and any(
                isinstance(x, dict)
                and not x.get("optional")
                and ("git" in x or ("path" in x and os.path.normpath(f"{m}/{x['path']}") in left))
                for x in d.get("dependencies", {}).values()
            )
        }
        if not more:
            break
        left |= more
    kept = []
    for m in docs:
        if m in left:
            continue
        doc, gone = docs[m], set()
        doc.pop("dev-dependencies", None)
        for k in ("bin", "test", "example", "bench"):
            doc.pop(k, None)
        for s in ("dependencies", "build-dependencies"):
            deps = doc.get(s, {})
            for n, d in list(deps.items()):
                if isinstance(d, dict) and ("git" in d or ("path" in d and os.path.normpath(f"{m}/{d['path']}") in left)):
                    del deps[n]
                    gone.add(n)
        if "features" in doc:
            doc["features"] = {
                k: [x for x in v if re.split(r"[/?]", x.removeprefix("dep:"))[0] not in gone]
                for k, v in doc["features"].items()
            }
        doc["package"]["autotests"] = doc["package"]["autoexamples"] = doc["package"]["autobenches"] = False
        kept.append(m)
        os.makedirs(f"{ws}/{m}", exist_ok=True)
        open(f"{ws}/{m}/Cargo.toml", "w").write(dump(doc))
        for n in ("src", "build.rs", "README.md"):
            if os.path.exists(f"{repo}/{m}/{n}"):
                os.symlink(f"{repo}/{m}/{n}", f"{ws}/{m}/{n}")
    doc = {"workspace": {k: v for k, v in root["workspace"].items() if k != "dependencies"}}
    doc["workspace"]["members"] = kept
    doc["workspace.dependencies"] = root["workspace"].get("dependencies", {})
    for k, v in root.get("profile", {}).items():
        doc[f"profile.{k}"] = v
    for k, v in root.get("patch", {}).items():
        doc[f"patch.{json.dumps(k)}"] = v
    open(f"{ws}/Cargo.toml", "w").write(dump(doc))
    shutil.copyfile(f"{repo}/Cargo.lock", f"{ws}/Cargo.lock")
    print(json.dumps({"kept": kept, "left_out": sorted(left)}))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
