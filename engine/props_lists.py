"""Lists which are answered page by page."""
from check import prop
from rules import *
from props_factory import js

MSG = mk("sym", "msg")
START, LIMIT_ = msg("start_after"), msg("limit")


def stored(t):
    return t.op == "call" and t.a[0] in ("range", "keys")


def pages(h, t, fuel=9):
    """what a list consists of: [(facts, entries put in front, [bounds of the rest], the stored entries it follows)]; None: not known"""
    if fuel == 0:
        return None
    if t.op == "alt":
        out = []
        for g, (x,) in cases(h, t):
            p = None if x.op == "alt" else pages(g, x, fuel - 1)
            if p is None:
                return None
            out += p
        return out
    if t.op == "arr":
        return [(h, len(t.a), [], None)]
    if t.op == "ext":
        out = []
        for g, n, b, s in pages(h, t.a[0], fuel - 1) or [(h, 0, [], t)]:
            rest = pages(g, t.a[1], fuel - 1)
            if s is not None or rest is None:
                return None
            out += [(k, n + m, c, u) for k, m, c, u in rest]
        return out
    if t.op == "take":
        p = pages(h, t.a[0], fuel)
        return p and [(g, n, b + [t.a[1]], s) for g, n, b, s in p]
    if t.op in ("coll", "enum"):
        return pages(h, t.a[0], fuel)
    if t.op == "mapc":
        if "flat" in t.a[2] or "filter" in t.a[2] and any(not onlyok(g, t.a[0]) for g, _ in t.a[1]):
            return None
        return pages(h, t.a[0], fuel)
    if stored(t):
        return [(h, 0, [], t)]
    if t.op == "phi":
        for s in sorted({x.a[0] for _, e in iterinfo(t) for x in walk_deep(e) if x.op == "elem"}, key=lambda x: x.id):
            if covers(t, s):
                return pages(h, s, fuel - 1)
    return None


def onlyok(g, src):
    """an entry is left out only if it could not be read"""
    return all(l.op == "isok" and l.a[0].op == "elem" for l in g if l.op != "did")


def after(b):
    """what an exclusive bound names"""
    while b.op == "good":
        b = b.a[0]
    if b.op == "st" and len(b.a[2]) == 1 and b.a[1].lower().startswith("exclusive"):
        return b.a[2][0][1]
    if b.op == "call" and isinstance(b.a[0], str) and len(b.a) == 2 and b.a[0].rsplit("::", 1)[-1].lower().startswith("exclusive"):
        return b.a[1]
    return None


def within_limit(h, n, bounds):
    """the page holds no more entries than asked for"""
    for g in (plus(h, isok(LIMIT_)),):
        if g is None:
            continue
        for q, b in ((q, b) for x in bounds for q, b in hoisted(g, x, 16)):
            if hle(q, add(b, INT(n)), ok(LIMIT_)) or b.op == "lin" and any(y.op == "min" and ok(LIMIT_) in y.a and lin_sub(add(b, INT(n)), y).op == "int" and lin_sub(add(b, INT(n)), y).a[0] <= 0 for y in walk(b)):
                continue
            if b.op == "min" and ok(LIMIT_) in b.a and n == 0:
                continue
            return False
    return bool(bounds)


def listing(r, v, tag, fields):
    k = 0
    for f, val, _ in v.oks:
        for h, (t,) in cases(f, js(val)):
            lists_ = [t] if t.op != "st" else [x for _, x in t.a[2] if any(map(stored, walk_deep(x)))]
            if not r.ob(f"{tag}.list", len(lists_) == 1, "the answer holds one list", v.where()):
                continue
            p = pages(h, lists_[0])
            if not r.ob(f"{tag}.entries", p is not None, "the answer has an entry for every stored one it looks at", v.where()):
                continue
            for g, n, bounds, src in p:
                if src is None:
                    continue
                k += 1
                r.ob(f"{tag}.limit", within_limit(g, n, bounds), "a page holds no more entries than asked for", v.where())
                r.ob(f"{tag}.whose", all(contains(src.a[2], msg(x)) for x in fields), "the entries are those of the one which is named", v.where())
                lo, hi, order = src.a[3:6]
                for q, (a, b, o) in cases(g, lo, hi, order):
                    if not r.ob(f"{tag}.order", o.op == "st" and o.a[1] in ("Ascending", "Descending"), "the order is known", v.where()):
                        continue
                    here, other = (a, b) if o.a[1] == "Ascending" else (b, a)
                    r.ob(f"{tag}.end", other.op == "bad", "a page is cut by its length only", v.where())
                    if plus(q, neg(isok(START))) is not None and here.op == "bad":
                        r.ob(f"{tag}.first", plus(q, isok(START)) is None, "an answer starts at the first entry only if no other start is named", v.where())
                    else:
                        x = after(here) if here.op != "bad" else None
                        r.ob(f"{tag}.next", x is not None and (n > 0 or contains(x, START)), "a page starts right after the entry which is named", v.where())
    r.ob(f"{tag}.stored", k > 0, "stored entries are answered", v.where())


@prop("L01", 40, "every query with a limit: its answer has one entry per stored entry, in the order of the keys, beginning right after the named one, and never more than asked for")
def listings(ctx, r):
    found = 0
    for c in sorted(ctx.ents):
        if not ctx.has(c, "query"):
            continue
        for n in ctx.variants(c, "query"):
            v = ctx.view(c, "query", n)
            used = {x.a[1] for f, val, _ in v.oks for t in (val, *f) for x in walk_deep(t) if x.op == "fld" and x.a[0] is MSG}
            if "limit" in used:
                found += 1
                listing(r, v, f"{c}.{n}", [x for x in used if x not in ("start_after", "limit", "order_by")])
    r.ob("some", found >= 8, f"only {found} queries with a limit are found", "")
