"""Hash-consed abstract values (the abstract domain) and their normalising constructors."""
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "_d", "_m")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        t._d = None
        t._m = None
        _n[0] += 1
        _tab[k] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("unit")
EMPTY = frozenset()


def INT(v):
    return mk("int", int(v))


ZERO = INT(0)
ONE = INT(1)


def STR(s):
    return mk("str", s)


def good(v):
    return mk("good", v)


BAD = mk("bad", mk("sym", "err"))


def bad(e):
    return BAD


def st(adt, variant, fields):
    return mk("st", adt, variant, tuple(fields))


def tup(*vs):
    return mk("st", "tuple", "", tuple((str(i), v) for i, v in enumerate(vs)))


def arr(*vs):
    return mk("arr", *vs)


def call(name, *a):
    return mk("call", name, *a)


# ---------------------------------------------------------------- alternatives
ALT_CAP = 14


def weight(f, d=0):
    if f.op != "or":
        return 1
    if d > 4:
        return 1000
    return sum(weight(x, d + 1) for g in f.a[0] for x in g)


def small(fs):
    """a guard without its large disjunctions (weaker, so still sound)"""
    return frozenset(f for f in fs if f.op != "or" or weight(f) <= SMALL)


SMALL = 24


def union(gs):
    """what holds whenever one of the guards does: what they have in common, and that one of them holds"""
    c = frozenset.intersection(*gs)
    if len(gs) == 1:
        return c
    rest = [g - c for g in gs]
    if not all(rest) or any(len(g) > 24 for g in rest):
        return c
    if len(rest) == 2 and all(len(g) == 1 for g in rest) and neg(next(iter(rest[0]))) is next(iter(rest[1])):
        return c
    rest = [small(g) for g in rest]
    if not all(rest):
        return c
    return c | {mk("or", frozenset(rest))}


def alt(items):
    """items: iterable of (frozenset facts, T): the value is one of the terms, each chosen only when its facts hold."""
    out = {}
    order = []
    for f, t in items:
        if t.op == "alt":
            sub = [(f | g, u) for g, u in t.a[0]]
        else:
            sub = [(f, t)]
        for g, u in sub:
            if u in out:
                out[u].append(g)
            else:
                out[u] = [g]
                order.append(u)
    for u in order:
        out[u] = union(out[u])
    if len(order) == 1:
        return order[0]
    if not order:
        return mk("never")
    if len(order) <= 4:
        order = absorb(out, order)
        if len(order) == 1:
            return order[0]
    if len(order) > ALT_CAP:
        if len(order) > 60:
            return mk("top", tuple(order[:3]))
    return mk("alt", tuple((out[u], u) for u in order))


NUMOPS = ("lin", "mul", "div", "int", "call", "fld", "ok", "sym", "min", "max")


def absorb(out, order):
    """drops an alternative chosen when x is zero if another one gives the same for x = 0"""
    res = list(order)
    for u in order:
        if u not in res or u.op not in NUMOPS:
            continue
        zs = zeros_of(out[u])
        if not zs:
            continue
        for w in res:
            if w is not u and w.op in NUMOPS and w.op != "int" and all(vanishes(w, u, x) for x in zs):
                res.remove(u)
                # the other one now stands for both
                out[w] = out[w] & out[u]
                break
    return res


def zeros_of(g):
    """terms one of which is zero whenever g holds: [] when none is known"""
    for f in g:
        if f.op == "eq" and ZERO in f.a:
            return [f.a[0] if f.a[1] is ZERO else f.a[1]]
    for f in g:
        if f.op == "or" and len(f.a[0]) <= 4:
            r = []
            for d in f.a[0]:
                z = zeros_of(d)
                if not z:
                    break
                r += z
            else:
                return r
    return []


_van = {}


def vanishes(w, u, x):
    """w with x = 0 is u"""
    k = (w, u, x)
    r = _van.get(k)
    if r is None:
        r = False
        if contains(w, x):
            v = subst(w, {x: ZERO})
            r = v is u
            if not r:
                import rat

                r = rat.req(v, u)
        _van[k] = r
    return r


def alts(t):
    """[(facts, term)]"""
    if t.op == "alt":
        return list(t.a[0])
    return [(EMPTY, t)]


def amap(f, t):
    if t.op == "alt":
        return alt((g, f(u)) for g, u in t.a[0])
    return f(t)


# ---------------------------------------------------------------- booleans
def neg(t):
    o = t.op
    if o == "bool":
        return FALSE if t.a[0] else TRUE
    if o == "not":
        return t.a[0]
    if o == "lt":
        return le(t.a[1], t.a[0])
    if o == "le":
        return lt(t.a[1], t.a[0])
    if o == "alt":
        return amap(neg, t)
    if o == "and":
        return orb(*[neg(x) for x in t.a])
    if o == "orb":
        return andb(*[neg(x) for x in t.a])
    return mk("not", t)


def andb(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out += [y for y in x.a if y not in out]
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def orb(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "orb":
            out += [y for y in x.a if y not in out]
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("orb", *out)


def is_const(t):
    return t.op in ("int", "str", "bool", "unit", "atom") or (t.op == "st" and all(is_const(v) for _, v in t.a[2]))


def eq(a, b):
    if a is b:
        return TRUE
    if b.op == "alt" and a.op != "alt":
        a, b = b, a
    if a.op == "alt" and (is_const(b) or len(a.a[0]) <= 4):
        return alt((f, eq(x, b)) for f, x in a.a[0])
    if is_const(a) and is_const(b):
        if a.op == b.op and a.op != "st":
            return FALSE
        if a.op == "st" and b.op == "st":
            return FALSE if a.a[0] == b.a[0] else mk("eq", a, b)
    if a.op == "st" and b.op == "st" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        fb = dict(b.a[2])
        return andb(*[eq(v, fb[n]) for n, v in a.a[2] if n in fb])
    if a.op == "call" and b.op == "call" and a.a[0] == b.a[0] == "unchecked":
        return eq(a.a[1], b.a[1])
    if a.op in ("good", "bad") and b.op in ("good", "bad"):
        if a.op != b.op:
            return FALSE
        return eq(a.a[0], b.a[0]) if a.op == "good" else TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "bad":
            return neg(isok(y))
        if x.op == "good" :
            return andb(isok(y), eq(ok(y), x.a[0]))
        if x.op == "st" and not x.a[2] and x.a[1] not in ("", x.a[0].rsplit("::", 1)[-1]):
            return is_variant(y, x.a[1])
        if x.op == "bool":
            return y if x.a[0] else neg(y)
        if x is ZERO and y.op == "ok" and y.a[0].op == "call" and y.a[0].a[0].rsplit("::", 1)[-1] == "from_atomics":
            return eq(y.a[0].a[1], x)
        if x is ZERO and y.op == "call" and len(y.a) == 3 and y.a[0] == "core::num::saturating_sub":
            return le(y.a[1], y.a[2])
    if a.op == "lin" and b.op in ("lin", "int") or b.op == "lin" and a.op == "int":
        d = lin_sub(a, b)
        if d.op == "int":
            return TRUE if d.a[0] == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a is ZERO:
        return neg(eq(b, ZERO))
    if b is ONE:
        return eq(a, ZERO)
    if b is ZERO:
        return mk("lt", a, b)
    if a.op == "alt" and is_const(b):
        return alt((f, lt(x, b)) for f, x in a.a[0])
    if b.op == "alt" and is_const(a):
        return alt((f, lt(a, x)) for f, x in b.a[0])
    return mk("lt", a, b)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] <= b.a[0] else FALSE
    if a is ONE:
        return neg(eq(b, ZERO))
    if b is ZERO:
        return eq(a, ZERO)
    if a is ZERO:
        return mk("le", a, b)
    if a.op == "alt" and is_const(b):
        return alt((f, le(x, b)) for f, x in a.a[0])
    if b.op == "alt" and is_const(a):
        return alt((f, le(a, x)) for f, x in b.a[0])
    return mk("le", a, b)


GOODV = {"Some", "Ok", "Continue"}
BADV = {"None", "Err", "Break"}


def isok(t):
    o = t.op
    if o == "good":
        return TRUE
    if o == "bad":
        return FALSE
    if o == "alt":
        return alt((f, isok(x)) for f, x in t.a[0])
    if o == "chk" and t.a[0] == "sub":
        return le(t.a[2], t.a[1])
    if o == "get":
        return lt(t.a[1], mklen(t.a[0]))
    if o == "upd":
        return isok(t.a[0])
    return mk("isok", t)


def ok(t):
    o = t.op
    if o == "good":
        return t.a[0]
    if o == "bad":
        return mk("never")
    if o == "alt":
        xs = [(f, ok(x)) for f, x in t.a[0] if x.op != "bad"]
        return alt(xs)
    if o == "chk":
        k = t.a[0]
        if k == "sub":
            return sub(t.a[1], t.a[2])
        if k == "add":
            return add(t.a[1], t.a[2])
        if k == "mul":
            return mul(t.a[1], t.a[2])
        if k == "div":
            return div(t.a[1], t.a[2])
        if k == "conv":
            return t.a[1]
    if o == "get":
        return idx(t.a[0], t.a[1])
    if o == "next":
        return elem(t.a[0])
    if o == "upd" and t.a[1] == ("ok",):
        return t.a[2]
    return mk("ok", t)


def err(t):
    return mk("sym", "err")


def is_variant(t, v):
    if v in GOODV:
        return isok(t)
    if v in BADV:
        return neg(isok(t))
    o = t.op
    if o == "st":
        return TRUE if t.a[1] == v else FALSE
    if o == "alt":
        return alt((f, is_variant(x, v)) for f, x in t.a[0])
    if o == "upd":
        return is_variant(t.a[0], v)
    if o == "call" and len(t.a) == 3 and t.a[0] in ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp"):
        if v == "Equal":
            return eq(t.a[1], t.a[2])
        if v == "Less":
            return lt(t.a[1], t.a[2])
        if v == "Greater":
            return lt(t.a[2], t.a[1])
    return mk("is", t, v)


# ---------------------------------------------------------------- numbers
def _lin(t):
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    if t.op == "int":
        return {}, t.a[0]
    return {t: 1}, 0


def _unlin(d, c):
    items = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: kv[0].id))
    if not items:
        return INT(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", items, c)


def _aa(f, a, b):
    """distribute over small alternatives"""
    if a.op == "alt" and len(a.a[0]) <= 4 and b.op != "alt":
        return alt((g, f(x, b)) for g, x in a.a[0])
    if b.op == "alt" and len(b.a[0]) <= 4 and a.op != "alt":
        return alt((g, f(a, x)) for g, x in b.a[0])
    return None


def add(a, b):
    r = _aa(add, a, b)
    if r is not None:
        return r
    d, c = _lin(a)
    e, k = _lin(b)
    for x, v in e.items():
        d[x] = d.get(x, 0) + v
    return _unlin(d, c + k)


def lin_sub(a, b):
    d, c = _lin(a)
    e, k = _lin(b)
    for x, v in e.items():
        d[x] = d.get(x, 0) - v
    return _unlin(d, c - k)


def sub(a, b):
    r = _aa(sub, a, b)
    if r is not None:
        return r
    return lin_sub(a, b)


def _fl(op, t):
    return list(t.a) if t.op == op else [t]


def mul(a, b):
    if a.op == "int" and b.op == "int":
        return INT(a.a[0] * b.a[0])
    for x, y in ((a, b), (b, a)):
        if x is ZERO:
            return ZERO
        if x is ONE:
            return y
    r = _aa(mul, a, b)
    if r is not None:
        return r
    # (x/y)*z  ->  (x*z)/y
    if a.op == "div":
        return div(mul(a.a[0], b), a.a[1])
    if b.op == "div":
        return div(mul(a, b.a[0]), b.a[1])
    xs = sorted(_fl("mul", a) + _fl("mul", b), key=lambda t: t.id)
    return mk("mul", *xs)


def div(a, b):
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    r = _aa(div, a, b)
    if r is not None:
        return r
    if a.op == "div":
        return div(a.a[0], mul(a.a[1], b))
    if b.op == "div":
        return div(mul(a, b.a[1]), b.a[0])
    return mk("div", a, b)


# ---------------------------------------------------------------- aggregates and collections
ALIAS = {}  # (term, field) -> what the field is taken to be in the case being analysed


def fld(t, n):
    o = t.op
    if o == "st":
        for k, v in t.a[2]:
            if k == n:
                return v
        return mk("fld", t, n)
    if o == "upd":
        p = t.a[1]
        if p[0] == "f":
            return t.a[2] if p[1] == n else fld(t.a[0], n)
        if p[0] == "ok":
            return mk("fld", t, n)
    if o == "alt":
        return alt((f, fld(x, n)) for f, x in t.a[0])
    if o == "never":
        return t
    if ALIAS:
        r = ALIAS.get((t, n))
        if r is not None:
            return r
    return mk("fld", t, n)


def pay(t, v, n):
    if v in GOODV:
        return ok(t)
    if v in BADV:
        return err(t)
    o = t.op
    if o == "st":
        return fld(t, n) if t.a[1] == v else mk("never")
    if o == "alt":
        xs = [(f, pay(x, v, n)) for f, x in t.a[0]]
        xs = [(f, x) for f, x in xs if x.op != "never"]
        return alt(xs)
    if o == "upd" and t.a[1][0] == "v":
        return t.a[2] if t.a[1][1:] == (v, n) else pay(t.a[0], v, n)
    return mk("pay", t, v, n)


def mklen(c):
    if c.op == "arr":
        return INT(len(c.a))
    if c.op == "str":
        return INT(len(c.a[0]))
    if c.op in ("enum", "rev", "sorted"):
        return mklen(c.a[0])
    if c.op == "mapc":
        if len(c.a[1]) == 1 and not c.a[1][0][0] and not c.a[2]:
            return mklen(c.a[0])
    if c.op == "upd" and c.a[1][0] == "i":
        return mklen(c.a[0])
    if c.op == "alt" and (len(c.a[0]) <= 4 or len(c.a[0]) <= 16 and all(x.op == "arr" for _, x in c.a[0])):
        return alt((f, mklen(x)) for f, x in c.a[0])
    if c.op == "app":
        return add(mklen(c.a[0]), ONE)
    if c.op == "coll" and c.a[1] == "set" and c.a[0].op == "arr":
        xs = set(c.a[0].a)
        if len(xs) < 2 or all(eq(x, y) is FALSE for x in xs for y in xs if x is not y):
            return INT(len(xs))
        if len(xs) < len(c.a[0].a):
            return mklen(mk("coll", arr(*sorted(xs, key=lambda x: x.id)), "set"))
    if c.op == "coll" and c.a[1] == "map" and c.a[0].op == "arr":
        ks = {fld(x, "0") for x in c.a[0].a}
        if len(ks) < 2 or all(eq(x, y) is FALSE for x in ks for y in ks if x is not y):
            return INT(len(ks))
    return mk("len", c)


def idx(c, i):
    if c.op == "arr" and i.op == "int" and i.a[0] < len(c.a):
        return c.a[i.a[0]]
    if c.op == "ext" and c.a[0].op == "arr" and i.op == "int" and i.a[0] < len(c.a[0].a):
        return c.a[0].a[i.a[0]]
    if c.op == "alt":
        return alt((f, idx(x, i)) for f, x in c.a[0])
    if i.op == "alt" and len(i.a[0]) <= 6:
        return alt((f, idx(c, x)) for f, x in i.a[0])
    if c.op == "upd" and c.a[1][0] == "i":
        j = c.a[1][1]
        if j is i:
            return c.a[2]
        if j.op == "int" and i.op == "int":
            return idx(c.a[0], i)
        # maybe-aliasing indices: either the updated or the old one
        return alt([(frozenset([eq(i, j)]), c.a[2]), (frozenset([neg(eq(i, j))]), idx(c.a[0], i))])
    if c.op == "mapc" and not c.a[2] and len(c.a[1]) == 1:
        src = c.a[0]
        it = iterinfo(src)
        if len(it) == 1:
            return subst(c.a[1][0][1], {it[0][1]: idx(src, i)})
        if src.op == "arr" and i.op == "int" and i.a[0] < len(src.a) and len(c.a) > 3:
            pass
    if i.op == "posof" and i.a[0].op == "fnd" and i.a[0].a[0] is c:
        return i.a[0]
    return mk("idx", c, i)


_loops = [0]


def newloop():
    """a number no other loop has, in this or any other run: what is known about loop values is kept by it"""
    _loops[0] += 1
    return _loops[0]


PHI = {}  # phi term -> (init, step)


def iterinfo(c, seen=()):
    """[(facts, element term)]: what an arbitrary element of the collection can be."""
    o = c.op
    if o == "arr":
        return [(EMPTY, x) for x in c.a]
    if o == "mapc":
        return list(c.a[1])
    if o == "filt":
        return [(f | c.a[1], x) for f, x in iterinfo(c.a[0], seen)]
    if o in ("rev", "sorted", "take", "skip", "coll", "rest"):
        return iterinfo(c.a[0], seen)
    if o == "enum":
        return [(f, tup(mk("pos", c.a[0]), x)) for f, x in iterinfo(c.a[0], seen)]
    if o == "zip":
        return [(f | g, tup(x, y)) for f, x in iterinfo(c.a[0], seen) for g, y in iterinfo(c.a[1], seen)]
    if o == "ext":
        return iterinfo(c.a[0], seen) + iterinfo(c.a[1], seen)
    if o == "app":
        return iterinfo(c.a[0], seen) + [(c.a[2] if len(c.a) > 2 else EMPTY, c.a[1])]
    if o == "alt":
        return [(f | g, x) for f, u in c.a[0] for g, x in iterinfo(u, seen)]
    if o == "good":
        return [(EMPTY, c.a[0])]
    if o in ("bad", "never"):
        return []
    if o == "imut":
        return [(EMPTY, mk("mptr", c.a[0].a[0], c.a[0].a[1], c.a[0].a[2] + (("e",),)))]
    if o == "phi" and c in PHI and c not in seen:
        i, s = PHI[c]
        return iterinfo(i, seen + (c,)) + iterinfo(s, seen + (c,))
    if o == "phi" and c in seen:
        return []
    if o == "fld":
        path, r = [], c
        while r.op == "fld":
            path.append(r.a[1])
            r = r.a[0]
        if r.op == "phi" and r in PHI:
            if c in seen:
                return []
            out = []
            for x in PHI[r]:
                for n in reversed(path):
                    x = fld(x, n)
                for it in iterinfo(x, seen + (c,)):
                    if it not in out:
                        out.append(it)
            return out
    if o == "upd" and c.a[1][0] == "i":
        return iterinfo(c.a[0], seen) + [(EMPTY, c.a[2])]
    if o == "upd" and c.a[1][0] == "e":
        return [(EMPTY, c.a[2])]
    return [(EMPTY, mk("elem", c))]


def srcof(c):
    """the collection whose elements a plain projection of it ranges over"""
    while True:
        if c.op in ("coll", "sorted", "rev"):
            c = c.a[0]
        elif c.op == "mapc" and not c.a[2] and len(c.a[1]) == 1 and not c.a[1][0][0]:
            c = c.a[0]
        else:
            return c


def elem(c):
    return alt(iterinfo(c))


# ---------------------------------------------------------------- paths into aggregates
def get_path(t, path):
    for p in path:
        if p[0] == "f":
            t = fld(t, p[1])
        elif p[0] == "v":
            t = pay(t, p[1], p[2])
        elif p[0] == "ok":
            t = ok(t)
        elif p[0] == "i":
            t = idx(t, p[1])
        elif p[0] == "e":
            t = elem(t)
    return t


def set_path(t, path, val):
    if not path:
        return val
    p = path[0]
    if t.op == "alt" and len(t.a[0]) <= 6:
        return alt((f, set_path(x, path, val)) for f, x in t.a[0])
    if p[0] == "f":
        new = set_path(fld(t, p[1]), path[1:], val)
        if t.op == "st":
            if any(k == p[1] for k, _ in t.a[2]):
                return mk("st", t.a[0], t.a[1], tuple((k, new if k == p[1] else v) for k, v in t.a[2]))
        if t.op == "upd" and t.a[1] == p:
            t = t.a[0]
        return mk("upd", t, p, new)
    if p[0] == "v":
        new = set_path(pay(t, p[1], p[2]), path[1:], val)
        if t.op == "st" and t.a[1] == p[1]:
            return mk("st", t.a[0], t.a[1], tuple((k, new if k == p[2] else v) for k, v in t.a[2]))
        return mk("upd", t, p, new)
    if p[0] == "ok":
        new = set_path(ok(t), path[1:], val)
        if t.op == "good":
            return good(new)
        return mk("upd", t, p, new)
    if p[0] == "i":
        new = set_path(idx(t, p[1]), path[1:], val)
        if t.op == "arr" and p[1].op == "int" and p[1].a[0] < len(t.a):
            l = list(t.a)
            l[p[1].a[0]] = new
            return mk("arr", *l)
        if t.op == "upd" and t.a[1] == p:
            t = t.a[0]
        return mk("upd", t, p, new)
    if p[0] == "e":
        old = elem(t)
        new = set_path(old, path[1:], val)
        if new is old:
            return t
        return mk("upd", t, p, alt([(EMPTY, old), (EMPTY, new)]))
    return mk("upd", t, p, val)


# ---------------------------------------------------------------- traversal
def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _kt(x)


def _kt(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from _kt(y)


def walk(t, seen=None, facts=False):
    """all subterms of the value (guards of alternatives excluded unless facts=True)"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "alt" and not facts:
            stack.extend(u for _, u in x.a[0])
        elif x.op == "mapc" and not facts:
            stack.append(x.a[0])
            stack.extend(u for _, u in x.a[1])
        else:
            stack.extend(kids(x))


def walk_deep(t):
    """walk, following loop phis"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "phi" and x in PHI:
            stack.extend(PHI[x])
        if x.op == "alt":
            stack.extend(u for _, u in x.a[0])
        elif x.op == "mapc":
            stack.append(x.a[0])
            stack.extend(u for _, u in x.a[1])
        else:
            stack.extend(kids(x))


_rebuild = {
    "good": good,
    "isok": isok,
    "ok": ok,
    "not": neg,
    "and": andb,
    "orb": orb,
    "eq": eq,
    "lt": lt,
    "le": le,
    "mul": lambda *a: _mulall(a),
    "div": div,
    "fld": fld,
    "pay": pay,
    "idx": idx,
    "len": mklen,
    "is": is_variant,
    "elem": elem,
}


def _mulall(a):
    r = ONE
    for x in a:
        r = mul(r, x)
    return r


def subst(t, m, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        if x.op == "lin":
            r = INT(x.a[1])
            for k, v in x.a[0]:
                k2 = go(k)
                r = add(r, k2) if v == 1 else (sub(r, k2) if v == -1 else add(r, mul(INT(v), k2)))
        elif x.op == "alt":
            r = alt((frozenset(go(g) for g in f), go(u)) for f, u in x.a[0])
        else:
            na = tuple(gt(y) for y in x.a)
            if na == x.a:
                r = x
            elif x.op in _rebuild:
                r = _rebuild[x.op](*na)
            else:
                r = mk(x.op, *na)
        memo[x] = r
        return r

    def gt(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(gt(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(gt(z) for z in y)
        return y

    return go(t)


def contains(t, x):
    return any(y is x for y in walk(t, facts=True))


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if isinstance(t, (tuple, list)):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(show(x, d) for x in t) + "}"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    if o in ("int", "bool", "sym"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "unit":
        return "()"
    if o == "good":
        return f"Ok({show(a[0], d-1)})"
    if o == "bad":
        return "Err"
    if o == "ok":
        return show(a[0], d) + "?"
    if o == "fld":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "pay":
        return f"{show(a[0], d)}.<{a[1]}>.{a[2]}"
    if o == "st":
        n = a[0].rsplit("::", 1)[-1]
        n = n if a[1] in ("", n) else f"{n}::{a[1]}"
        return n + "{" + ", ".join(f"{k}:{show(v, d-1)}" for k, v in a[2]) + "}"
    if o == "lin":
        s = " + ".join((show(k, d - 1) if v == 1 else f"{v}*{show(k, d-1)}") for k, v in a[0])
        return "(" + s + (f" + {a[1]}" if a[1] else "") + ")"
    if o == "call":
        return f"{a[0]}({', '.join(show(x, d-1) for x in a[1:])})"
    if o == "alt":
        return "alt<" + " | ".join(show(u, d - 1) for _, u in a[0][:5]) + (" |.." if len(a[0]) > 5 else "") + ">"
    if o == "item":
        return f"{a[0]}[{show(a[1])}]"
    if o == "did":
        return f"did#{a[0]}"
    return f"{o}({', '.join(show(x, d-1) for x in a)})"
