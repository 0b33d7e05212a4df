"""Reasoning over must-facts: conditioning on effects and guards, and asking whether a literal holds on every path."""
from absint import EMPTY, dids, fdids, isnext
from terms import *


def contradicts(fs, f):
    """f cannot hold together with the literals of fs"""
    if f is FALSE:
        return True
    if f.op in ("or", "did") or isnext(f):
        return False
    if neg(f) in fs:
        return True
    if f.op == "is":
        for g in fs:
            if g.op == "is" and g.a[0] is f.a[0] and g.a[1] != f.a[1]:
                return True
    elif f.op == "lt":
        return lt(f.a[1], f.a[0]) in fs or eq(f.a[0], f.a[1]) in fs
    elif f.op == "eq":
        if lt(f.a[0], f.a[1]) in fs or lt(f.a[1], f.a[0]) in fs:
            return True
        for x, k in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
            if x.op == "min" and k.op == "int" and all(neg(eq(k, y)) in fs for y in x.a):
                return True
            if k.op in ("int", "str"):
                for g in fs:
                    if g.op == "eq" and (g.a[0] is x and g.a[1].op == k.op and g.a[1] is not k or g.a[1] is x and g.a[0].op == k.op and g.a[0] is not k):
                        return True
    elif f.op == "not" and f.a[0].op == "is":
        pass
    return False


_rc = {}


def dead(d, cur, depth=3):
    """the disjunct d cannot hold together with the literals of cur"""
    lits_ = [f for f in d if f.op not in ("or", "and", "did")]
    if any(contradicts(cur, f) for f in lits_):
        return True
    if not depth:
        return False
    ors = [f for f in d if f.op == "or"]
    if not ors:
        return False
    c2 = cur | set(lits_)
    return any(all(dead(x, c2, depth - 1) for x in o.a[0]) for o in ors)


def refine(fs):
    """closes a fact set: drops impossible disjuncts, promotes single ones; None when contradictory"""
    fs = frozenset(fs)
    if fs in _rc:
        return _rc[fs]
    cur = set()
    ors = set()
    for f in fs:
        if f.op == "or":
            ors.add(f)
        elif f.op == "and":
            cur |= set(f.a)
        elif f is not TRUE:
            cur.add(f)
    res = None
    bad_ = any(contradicts(cur - {f}, f) for f in cur)
    changed = True
    while changed and not bad_:
        changed = False
        for o in list(ors):
            live = []
            for d in o.a[0]:
                if dead(d, cur):
                    continue
                live.append(d)
            if not live:
                bad_ = True
                break
            if len(live) == 1:
                ors.discard(o)
                changed = True
                for f in live[0]:
                    if f.op == "or":
                        ors.add(f)
                    elif f not in cur:
                        if contradicts(cur, f):
                            bad_ = True
                        cur.add(f)
            elif len(live) < len(o.a[0]):
                ors.discard(o)
                ors.add(mk("or", frozenset(live)))
                changed = True
    if not bad_:
        res = frozenset(cur | ors)
    _rc[fs] = res
    return res


def _cond(fs, tok):
    out = set()
    for f in fs:
        if f.op == "or" and tok in dids(f):
            ds = [_cond(d, tok) for d in f.a[0] if tok in fdids(d)]
            if len(ds) == 1:
                out |= ds[0]
            else:
                common = frozenset.intersection(*ds)
                out |= common
                rest = [d - common for d in ds]
                if all(rest):
                    out.add(mk("or", frozenset(rest)))
        else:
            out.add(f)
    return frozenset(out)


def given(fs, toks):
    """facts of fs on the paths on which all the effects toks happened; None when there is no such path"""
    for tok in toks:
        if tok not in fdids(fs):
            return None
        fs = _cond(fs, tok)
    return refine(fs)


def without(fs, toks):
    """facts of fs on the paths on which none of the effects toks happened; None when there is no such path"""

    def drop(fs):
        out = set()
        for f in fs:
            if f in toks:
                return None
            if f.op == "or":
                ds = []
                for d in f.a[0]:
                    n = drop(d)
                    if n is not None:
                        ds.append(n)
                if not ds:
                    return None
                if len(ds) == 1:
                    out |= ds[0]
                else:
                    out.add(mk("or", frozenset(ds)))
            else:
                out.add(f)
        return frozenset(out)

    r = drop(fs)
    return None if r is None else refine(r)


def lits(f):
    """the literals a fact amounts to"""
    if f.op == "and":
        for x in f.a:
            yield from lits(x)
    elif f.op == "all":
        yield f
        yield from lits(f.a[1])
    elif f.op == "not" and f.a[0].op == "any":
        yield f
        yield from lits(neg(f.a[0].a[1]))
    elif f.op == "not" and f.a[0].op == "isok" and f.a[0].a[0].op == "fnd":
        yield f
        yield from lits(neg(f.a[0].a[0].a[1]))
    else:
        yield f


def holds(fs, p, depth=8, around=EMPTY):
    """p (predicate on literals) is true of some fact on every path described by fs"""
    here = None
    for f in fs:
        if f.op == "or":
            if depth:
                if here is None:
                    here = around | {x for x in fs if x.op != "or"}
                if all(holds(d, p, depth - 1, here) or depth < 8 and dead(d, here) for d in f.a[0]):
                    return True
            continue
        if f.op == "did":
            continue
        for l in lits(f):
            if p(l):
                return True
            if l.op == "orb" and all(holds(frozenset([x]), p, depth - 1) for x in l.a):
                return True
            if l.op == "alt" and depth:
                ok_ = True
                for g, x in l.a[0]:
                    if x is FALSE:
                        continue
                    if not (holds(g, p, depth - 1, around) or x is not TRUE and holds(frozenset([x]), p, depth - 1)):
                        ok_ = False
                        break
                if ok_:
                    return True
    return False


def plus(fs, *extra):
    """fs with additional literals"""
    out = set(fs)
    for e in extra:
        if isinstance(e, T):
            if e is FALSE:
                return None
            if e.op == "and":
                out |= set(e.a)
            elif e.op == "orb":
                out.add(mk("or", frozenset(frozenset([x]) for x in e.a)))
            elif e is not TRUE:
                out.add(e)
        else:
            out |= set(e)
    return refine(out)


def alllits(fs):
    """every literal anywhere in the fact set (used to describe, never to decide)"""
    for f in fs:
        if f.op == "or":
            for d in f.a[0]:
                yield from alllits(d)
        elif f.op != "did":
            yield from lits(f)
