"""Decides one property: python3 check.py <ID>. Exit 0 when every obligation holds, 1 with a VIOLATION line otherwise."""
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

PROPS = {}


class Rec:
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = {}
        self.notes = []

    def ob(self, key, cond, what, where=""):
        """one obligation: `key` names the instance (stable, no line numbers), `what` says what must hold"""
        k = key
        if k in self.obs:
            o = self.obs[k]
            if o["ok"] and not cond:
                o.update(ok=False, what=what, where=where)
            o["n"] += 1
            return bool(cond)
        self.obs[k] = {"ok": bool(cond), "what": what, "where": where, "n": 1}
        return bool(cond)

    def note(self, s):
        self.notes.append(s)


def prop(pid, floor, rule):
    def deco(f):
        PROPS[pid] = (f, floor, rule)
        return f

    return deco


def load_all():
    sys.modules.setdefault("check", sys.modules[__name__])
    for f in sorted(os.listdir(HERE)):
        if f.startswith("props_") and f.endswith(".py"):
            importlib.import_module(f[:-3])


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


class Enough(BaseException):
    """stops a run: what it found so far decides"""


# seconds after which a run stops looking for further violations, and after which it gives up undecided
SETTLED, PATIENCE = 90, 780


def watch(r, kn):
    t0 = time.time()

    def look(*_):
        if time.time() - t0 > PATIENCE or any(not o["ok"] and (r.pid, k) not in kn for k, o in r.obs.items()):
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise Enough

    signal.signal(signal.SIGALRM, look)
    signal.setitimer(signal.ITIMER_REAL, SETTLED, 5)


def run(pid, ctx, kn=()):
    f, floor, rule = PROPS[pid]
    r = Rec(pid)
    watch(r, kn)
    try:
        f(ctx, r)
    except Enough:
        if all(o["ok"] or (pid, k) in kn for k, o in r.obs.items()):
            r.ob("analysis", False, f"undecided after {PATIENCE} seconds", "")
        return r
    except Exception as e:  # an anchor the rule needs is gone, or the analysis met its bound
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get("DEBUG"):
            traceback.print_exc()
        r.ob("analysis", False, f"rule could not be evaluated: {type(e).__name__}: {e}", f"{tb[-1].name}:{tb[-1].lineno}")
    if len(r.obs) < floor:
        r.ob("floor", False, f"only {len(r.obs)} obligations were found, at least {floor} are expected", "")
    signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    load_all()
    if pid not in PROPS:
        print(f"unknown property {pid}")
        return 2
    from rules import Ctx

    ctx = Ctx()
    kn = {(k["property"], k["key"]): k for k in known()["findings"] if k.get("status") == "known"}
    r = run(pid, ctx, kn)
    viol = []
    for key, o in sorted(r.obs.items()):
        if o["ok"]:
            continue
        k = kn.get((pid, key))
        if k:
            print(f"KNOWN-FINDING: property={pid} {key}: {k['what']}")
        else:
            viol.append({"key": key, "what": o["what"], "where": o["where"]})
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    _, floor, rule = PROPS[pid]
    nfn = len(ctx.fns)
    report = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": rule,
            "obligations": len(r.obs),
            "discharged": sum(1 for o in r.obs.values() if o["ok"]),
            "obligation_sites": sum(o["n"] for o in r.obs.values()),
            "floor": floor,
            "crates_analysed": len(ctx.prog.crates),
            "functions_in_program": len(ctx.prog.fns),
            "functions_interpreted": nfn,
            "entry_runs": len(ctx.cache),
            "blocks_interpreted": ctx.nblocks,
            "instances": sorted(r.obs)[:400],
        },
        "violations": viol,
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(report, open(f"{ev}/{pid}.json", "w"), indent=1)
    for n in r.notes:
        print("note:", n)
    if viol:
        rp = f"{ev}/{pid}.violation.json"
        json.dump({"property": pid, "violations": viol}, open(rp, "w"), indent=1)
        for v in viol:
            print(f"{pid}: {v['key']}: {v['what']} [{v['where']}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: {len(r.obs)} obligations hold ({report['coverage']['entry_runs']} entry runs, {nfn} functions), {report['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
