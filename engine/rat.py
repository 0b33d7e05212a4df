"""Equality of arithmetic terms as rational functions (rounding ignored): two formulas which are rearrangements of one
another are recognised as the same."""
from fractions import Fraction

from terms import *

_atoms = {}  # (op, name) -> representatives
_memo = {}
_defs = {}

P18 = 10**18


def name_of(t):
    return t.a[0].rsplit("::", 1)[-1] if t.op == "call" and isinstance(t.a[0], str) else None


def atom(t):
    """representative of an uninterpreted term; arguments are compared as rational functions"""
    r = _memo.get(("a", t))
    if r is not None:
        return r
    key = (t.op, len(t.a), name_of(t))
    if t.op in ("call", "min", "max", "sum"):
        for u in _atoms.setdefault(key, []):
            if t.op in ("min", "max"):
                a, b = t.a, u.a
                if req(a[0], b[0]) and req(a[1], b[1]) or req(a[0], b[1]) and req(a[1], b[0]):
                    r = u
                    break
            elif all(teq(x, y) for x, y in zip(t.a, u.a)):
                r = u
                break
        else:
            _atoms[key].append(t)
            r = t
    else:
        r = t
    _memo[("a", t)] = r
    return r


def teq(x, y):
    """equal terms, with the numbers in them compared as rational functions"""
    if x is y:
        return True
    if not (isinstance(x, T) and isinstance(y, T)):
        return x == y
    if x.op in ("arr", "good") and y.op == x.op and len(x.a) == len(y.a):
        return all(teq(p, q) for p, q in zip(x.a, y.a))
    if x.op == "st" and y.op == "st" and x.a[:2] == y.a[:2] and [n for n, _ in x.a[2]] == [n for n, _ in y.a[2]]:
        return all(teq(p, q) for (_, p), (_, q) in zip(x.a[2], y.a[2]))
    return numeric(x) and numeric(y) and req(x, y)


def numeric(t):
    return t.op in ("lin", "mul", "div", "int", "call", "ok", "fld", "sym", "min", "max")


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONEP = {(): Fraction(1)}
_ids = {}


def aid(t):
    t = atom(t)
    _ids[t.id] = t
    return t.id


def rmul(x, y):
    return pmul(x[0], y[0]), pmul(x[1], y[1])


def radd(x, y, k=1):
    if x[1] == y[1]:
        return padd(x[0], y[0], k), x[1]
    return padd(pmul(x[0], y[1]), pmul(y[0], x[1]), k), pmul(x[1], y[1])


def rconst(c):
    c = Fraction(c)
    return ({(): c} if c else {}), ONEP


def rat(t):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = _rat(t)
    return r


def _rat(t):
    o = t.op
    if o == "int":
        return rconst(t.a[0])
    if o == "lin":
        r = rconst(t.a[1])
        for x, k in t.a[0]:
            r = radd(r, rmul(rconst(k), rat(x)))
        return r
    if o == "mul":
        r = rconst(1)
        for x in t.a:
            r = rmul(r, rat(x))
        return r
    if o == "div":
        a, b = rat(t.a[0]), rat(t.a[1])
        return pmul(a[0], b[1]), pmul(a[1], b[0])
    if o == "ok" and t.a[0].op == "chk" or o == "ok" and t.a[0].op == "good":
        return rat(ok(t.a[0])) if ok(t.a[0]) is not t else one_atom(t)
    if o == "ok" and t.a[0].op == "call":
        c = t.a[0]
        n = name_of(c)
        if n == "from_atomics":
            a, b = rat(c.a[1]), rpow(INT(10), c.a[2])
            return pmul(a[0], b[1]), pmul(a[1], b[0])
        if n in ("to_uint128_with_precision", "to_uint256_with_precision"):
            return rmul(rat(c.a[1]), rpow(INT(10), c.a[2]))
        if n == "inv":
            a = rat(c.a[1])
            return a[1], a[0]
        if n == "from_str" and c.a[1].op == "str":
            try:
                return rconst(Fraction(c.a[1].a[0]))
            except ValueError:
                pass
    if o == "call":
        n = name_of(t)
        if n in ("numerator", "atomics") and len(t.a) == 2:
            return rmul(rat(t.a[1]), rconst(P18))
        if n == "denominator":
            return rconst(P18)
        if n == "decimal_places":
            return rconst(18)
        if n == "one" or n == "default_one":
            return rconst(1)
        if (n == "raw" or n == "new" and "Decimal" in t.a[0]) and len(t.a) == 2:
            return rmul(rat(t.a[1]), rconst(Fraction(1, P18)))
        if n in ("to_uint_floor", "to_decimal256", "from_uint"):
            return rat(t.a[1])
        if n == "saturating_sub":
            return radd(rat(t.a[1]), rat(t.a[2]), -1)
        if n == "saturating_add":
            return radd(rat(t.a[1]), rat(t.a[2]))
        if n == "pow" and len(t.a) == 3:
            return rpow(t.a[1], t.a[2])
    return one_atom(t)


def one_atom(t):
    return {((aid(t), 1),): Fraction(1)}, ONEP


def rpow(b, e):
    """b ** e with the exponent split into its summands"""
    if e.op == "call" and name_of(e) == "decimal_places":
        e = INT(18)
    if e.op == "int":
        k = e.a[0]
        if b.op == "int" and abs(k) <= 80:
            return rconst(Fraction(b.a[0]) ** k)
        if 0 <= k <= 6:
            r = rconst(1)
            for _ in range(k):
                r = rmul(r, rat(b))
            return r
    if e.op == "lin":
        r = rpow(b, INT(e.a[1])) if e.a[1] else rconst(1)
        for x, k in e.a[0]:
            if x.op == "call" and name_of(x) == "decimal_places":
                r = rmul(r, rpow(b, INT(18 * k)))
                continue
            y = rpow(b, x)
            for _ in range(abs(k)):
                r = rmul(r, y if k > 0 else (y[1], y[0]))
        return r
    return one_atom(call("pow", b, e))


def req(a, b):
    """a and b are the same rational function"""
    if a is b:
        return True
    x, y = rat(a), rat(b)
    if not x[1] or not y[1]:  # division by zero
        return False
    if len(x[0]) * len(y[1]) > 4000 or len(y[0]) * len(x[1]) > 4000:
        return False
    return pmul(x[0], y[1]) == pmul(y[0], x[1])


def positive(p):
    return bool(p) and all(c > 0 for c in p.values())


def quotient(a, b):
    """a = b * (positive multiple of a monomial)"""
    if len(a) != len(b) or not a:
        return False
    for mb, cb in b.items():
        for ma, ca in a.items():
            k = ca / cb
            if k <= 0:
                continue
            q = mmul(ma, tuple((x, -e) for x, e in mb))
            if {mmul(m, q): c * k for m, c in b.items()} == a:
                return True
        return False
    return False


def samesign(x, y):
    """the numbers have the same sign wherever all quantities are positive"""
    a, b = rat(x), rat(y)
    if not positive(a[1]) or not positive(b[1]) or len(a[0]) * len(b[0]) > 4000:
        return False
    return any(quotient(p, q) for p in (a[0], pmul(a[0], b[1])) for q in (b[0], pmul(b[0], a[1])))


def ge0(l, w):
    """the literal says w >= 0 (or more)"""
    if l.op == "not":
        l = l.a[0]
        if l.op not in ("le", "lt"):
            return False
        return samesign(lin_sub(l.a[0], l.a[1]), w)
    return l.op in ("le", "lt") and samesign(lin_sub(l.a[1], l.a[0]), w)


def atoms(t):
    """the terms the number is a rational function of"""
    x = rat(t)
    return {_ids[a] for q in x for m in q for a, _ in m}
