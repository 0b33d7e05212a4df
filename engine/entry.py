"""Entry points: builds the abstract inputs of a contract's entry points, one run per message variant."""
import os
import sys
import time

from absint import *
from terms import *


def param_kind(ty):
    if "DepsMut" in ty:
        return "deps"
    if "::deps::Deps" in ty:
        return "deps"
    if ty.endswith("types::Env"):
        return "env"
    if ty.endswith("types::MessageInfo"):
        return "info"
    return "msg"


ENTRY = ("instantiate", "execute", "query", "reply", "migrate", "sudo")


def find_entries(prog):
    """{crate: {entry name: fn}} by signature, wherever the function lives"""
    out = {}
    for fn in prog.fns.values():
        if fn["registry"] or fn["kind"] != "Fn":
            continue
        n = fn["name"].rsplit("::", 1)[-1]
        if n not in ENTRY or fn["argc"] < 3 or not fn["pub"]:
            continue
        tys = fn["locals"][1 : fn["argc"] + 1]
        if param_kind(tys[0]) != "deps" or param_kind(tys[1]) != "env":
            continue
        if fn["name"].count("::") > 2:
            # helper with an entry-like name deeper in the tree
            pass
        out.setdefault(fn["crate"], {}).setdefault(n, fn)
    return out


class Run:
    """The abstract result of one entry point on one message variant."""

    def __init__(self, it, fn, variant, rets):
        self.it = it
        self.fn = fn
        self.variant = variant
        self.oks = []
        for s, v in rets:
            for g, x in alts(v):
                if x.op == "bad" or x.op == "never":
                    continue
                n = s.copy()
                if not all(it.addfact(n, h) for h in g):
                    continue
                if x.op != "good":
                    if not it.assume(n, isok(x)):
                        continue
                self.oks.append((n.facts, ok(x), n))
        alive = set()
        for f, _, _ in self.oks:
            alive |= fdids(f)
        self.effects = [e for e in it.effects if e["tok"] in alive or not self.oks]
        self.all_effects = it.effects


def variants(prog, ty):
    a = prog.adts.get(sname(ty.split("<")[0]) if not ty.startswith("<") else ty)
    if a is None or not a["enum"]:
        return None
    return a


def sym_fields(base, fields):
    return tuple((n, fld(mk("sym", base), n)) for n, _ in fields)


def run_entry(prog, fn, variant=None, opaque=(), assume=(), subst_msg=None, max_steps=3_000_000, alias=()):
    ALIAS.clear()
    ALIAS.update(dict(alias))
    try:
        return _run_entry(prog, fn, variant, opaque, assume, subst_msg, max_steps)
    finally:
        ALIAS.clear()


def _run_entry(prog, fn, variant, opaque, assume, subst_msg, max_steps):
    it = Interp(prog, opaque, max_steps)
    enumv = {}
    it.enumv = enumv
    args = []
    tys = fn["locals"][1 : fn["argc"] + 1]
    for t in tys:
        k = param_kind(t)
        if k == "deps":
            args.append(mk("sym", "deps"))
        elif k == "env":
            args.append(mk("sym", "env"))
        elif k == "info":
            args.append(mk("sym", "info"))
        else:
            if subst_msg is not None:
                args.append(subst_msg)
            elif variant is not None:
                name, var, fs = variant
                args.append(mk("st", name, var, sym_fields("msg", fs)))
            else:
                args.append(mk("sym", "msg"))
    s = S()
    for a in assume:
        if not it.assume(s, a):
            raise Bound("contradictory assumption")
    s.fr[0] = {}
    rets = it.run(prog.body(fn["id"]), args, s)
    return Run(it, fn, variant[1] if variant else None, rets)


def entry_runs(prog, fn, **kw):
    """one Run per variant of the message enum (or one run when the message is a struct)"""
    ty = fn["locals"][fn["argc"]]
    a = variants(prog, ty)
    if a is None or param_kind(ty) != "msg":
        yield None, run_entry(prog, fn, None, **kw)
        return
    for var, fs in a["variants"]:
        yield var, run_entry(prog, fn, (a["name"], var, fs), **kw)


if __name__ == "__main__":
    import extract

    d = extract.extract()
    t0 = time.time()
    prog = Prog(d)
    print("loaded", len(prog.fns), time.time() - t0)
    ents = find_entries(prog)
    only = sys.argv[1:]
    for c in sorted(ents):
        for e, fn in ents[c].items():
            if only and not any(o in f"{c}/{e}" for o in only):
                continue
            ty = fn["locals"][fn["argc"]]
            print(c, e, fn["name"], ty, bool(variants(prog, ty)))
            t0 = time.time()
            try:
                for v, r in entry_runs(prog, fn):
                    print(f"   {v}: oks={len(r.oks)} effects={len(r.effects)}/{len(r.all_effects)} blocks={r.it.stats['blocks']} {time.time()-t0:.1f}s")
                    t0 = time.time()
                    if os.environ.get("V"):
                        for x in r.effects:
                            print("      ", x["kind"], show(x["item"]), show(x["key"], 3), show(x.get("val", UNIT), 4))
                        for f, val, _ in r.oks:
                            print("      OK", show(val, 7)[:1500])
                            if os.environ["V"] == "2":
                                for l in f:
                                    print("          fact", show(l, 5)[:300])
            except Bound as ex:
                print("   BOUND", ex)
