"""Abstract semantics of the library functions the contracts call (std, cosmwasm_std, cw_storage_plus, itertools ...)."""
import json

from terms import *

IDENT = {
    "Deref::deref", "Clone::clone", "ToString::to_string", "ToOwned::to_owned", "Into::into", "From::from",
    "AsRef::as_ref", "Borrow::borrow", "String::as_str", "Addr::as_str", "Addr::into_string", "String::into_bytes",
    "Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Result::as_ref", "hint::must_use",
    "Box::new", "slice::to_vec", "Vec::as_slice", "slice::iter", "Iterator::cloned", "Iterator::copied",
    "Uint128::u128", "U256::as_u128", "U256::from", "Uint128::new", "Uint64::u64", "Uint64::new", "Uint256::new", "Vec::into_iter", "slice::into_vec", "Itertools::collect_vec",
    "Iterator::by_ref", "Iterator::peekable", "String::as_bytes", "str::as_bytes", "Addr::as_bytes",
    "Binary::as_slice", "array::as_slice", "Binary::to_vec",
    "cmp::Reverse", "DepsMut::as_ref", "DepsMut::branch", "Deps::clone", "str::to_owned", "Result::map_err",
    "Option::ok_or", "Option::ok_or_else", "Result::ok", "Uint256::from_uint128", "Decimal256::from_integer",
    "Iterator::fuse", "Box::pin", "array::iter", "Iterator::into_iter", "Decimal::from_integer", "Try::branch",
    "Vec::into_boxed_slice", "String::from", "Cow::into_owned", "Rc::new", "Result::iter", "Option::iter",
    "SystemTime::from", "IntoIterator::into_iter_val", "convert::identity",
}
# "Result::ok" keeps goodness and payload; error payloads are not tracked

FIRST = {"must_pay", "may_pay", "nonpayable", "one_coin", "parse_reply_instantiate_data", "parse_reply_execute_data",
         "parse_instantiate_response_data", "parse_execute_response_data"}


def nsof_item(i):
    return i.a[1].a[0] if i.op == "item" and i.a[1].op == "str" else None


BOOLS = ("eq", "le", "lt", "not", "isok", "is", "contains", "and", "orb")


def peralt(fn):
    """the model fn applied to each concrete alternative of the collection"""

    def g(self, s, f, av):
        c = self.dv(s, av[0])
        if self.concretes(c) and len(c.a[0]) <= 8:
            return [r for m, x in self.apart(s, c) for r in fn(self, m, f, [x, *av[1:]])]
        return fn(self, s, f, av)

    return g


class Models:
    def __init__(self, it):
        self.it = it
        self._cache = {}
        self._first = {}

    # -------------------------------------------------- lookup
    def const(self, n):
        l = n.rsplit("::", 2)
        k = "::".join(l[-2:])
        if k in ("Uint128::MAX", "u64::MAX", "Decimal::MAX", "u128::MAX", "Uint64::MAX", "u32::MAX"):
            return mk("const", k)
        return None

    def first(self, name):
        """models that win over an available body"""
        if name in self._first:
            return self._first[name]
        r = None
        seg = name.split("::")
        if seg[0] == "cw_utils" and seg[-1] in FIRST:
            r = self.payfn
        elif name == "core::clone::Clone::clone":
            r = self.ident
        elif name == "alloc::string::ToString::to_string":
            r = self.text
        elif seg[-2:] in (["Fn", "call"], ["FnMut", "call_mut"], ["FnOnce", "call_once"]):
            r = self.callfn
        self._first[name] = r
        return r

    def find(self, name):
        if name in self._cache:
            return self._cache[name]
        seg = name.split("::")
        key = "::".join(seg[-2:])
        r = None
        if key in IDENT:
            r = self.ident
        else:
            fn = key.replace("::", "__")
            r = getattr(self, fn, None)
            if r is None:
                r = getattr(self, "any__" + seg[-1], None)
        self._cache[name] = r
        return r

    # -------------------------------------------------- helpers
    def dv(self, s, a):
        return self.it.deref(s, a)

    def ident(self, s, f, av):
        return [(s, self.dv(s, av[0]))]

    def text(self, s, f, av):
        """the text of a value is the value; the text of an asset description is its denom or address"""
        v = self.dv(s, av[0])
        if v.op == "st" and v.a[0].endswith("AssetInfo") and len(v.a[2]) == 1:
            v = v.a[2][0][1]
        return [(s, v)]

    def rng(self, i, k, rest, name="range"):
        r = ALIAS.get((name, nsof_item(i)))
        if callable(r):
            r = r(k, rest)
        if r is not None:
            return r
        return call(name, i, k, *rest)

    def keysof(self, i, k, rest):
        """the keys of a range which is given are the keys of its entries"""
        r = self.rng(i, k, rest)
        if r.op == "arr" and all(x.op == "good" for x in r.a):
            return arr(*[good(fld(ok(x), "0")) for x in r.a])
        return call("keys", i, k, *rest)

    def payfn(self, s, f, av):
        n = f["name"].rsplit("::", 1)[-1]
        return [(s, call(n, *[self.it.deep(s, a) for a in av]))]

    def split(self, s, v):
        """[(state, is_good, payload)] for an Option/Result value"""
        out = []
        v = self.dv(s, v)
        for g, x in alts(v):
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            k = isok(x)
            if k is TRUE:
                out.append((n, True, ok(x)))
            elif k is FALSE:
                out.append((n, False, None))
            else:
                m = n.copy()
                if self.it.assume(n, k):
                    out.append((n, True, ok(x)))
                if self.it.assume(m, neg(k)):
                    out.append((m, False, None))
        return out

    def fin(self, rets):
        return self.it.merge_rets(rets)

    def bools(self, s, f, x):
        """(bool term, state) of applying closure f to x"""
        r = self.fin(self.it.apply(s.copy(), f, [x]))
        if not r:
            return TRUE, s
        return self.dv(r[0][0], r[0][1]), r[0][0]

    def val1(self, f):
        def g(s, fr, av):
            return [(s, f(*[self.it.deep(s, a) for a in av]))]

        return g

    def targ(self, f, i):
        return f["targs"][i] if len(f["targs"]) > i else ""

    def default(self, ty):
        if ty.startswith("core::option::Option<"):
            return BAD
        if ty.startswith(("alloc::vec::Vec<", "std::collections::", "alloc::collections::", "hashbrown::")):
            return arr()
        if ty in ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128"):
            return ZERO
        if ty == "bool":
            return FALSE
        if ty == "alloc::string::String" or ty == "&str":
            return STR("")
        if ty.startswith("cosmwasm_std::math::"):
            return ZERO
        if ty.startswith("cosmwasm_std::results::response::Response"):
            return self.newresp()
        a = self.it.p.adts.get(ty)
        if a is not None and not a["enum"] and a["variants"] and self.derived_default(ty):
            return st(ty, "", tuple((n, self.default(x)) for n, x in a["variants"][0][1]))
        return call("default", STR(ty))

    def derived_default(self, ty):
        """whether the default of ty has no body of its own (then it was derived)"""
        names = getattr(self.it.p, "_defaults", None)
        if names is None:
            names = self.it.p._defaults = {f["name"] for f in self.it.p.fns.values() if f["name"].endswith(" as core::default::Default>::default")}
        return ty.startswith("astroport") and f"<{ty} as core::default::Default>::default" not in names

    # -------------------------------------------------- Try / conversions
    def FromResidual__from_residual(self, s, f, av):
        return [(s, BAD)]

    def Default__default(self, s, f, av):
        return [(s, self.default(self.targ(f, 0)))]

    def DerefMut__deref_mut(self, s, f, av):
        return [(s, av[0])]

    any__as_mut_slice = DerefMut__deref_mut
    Vec__as_mut = DerefMut__deref_mut

    def TryInto__try_into(self, s, f, av):
        return [(s, mk("chk", "conv", self.dv(s, av[0])))]

    TryFrom__try_from = TryInto__try_into

    def FromStr__from_str(self, s, f, av):
        return [(s, call("from_str", self.dv(s, av[0])))]

    # -------------------------------------------------- comparisons
    def PartialEq__eq(self, s, f, av):
        return [(s, eq(self.it.deep(s, av[0]), self.it.deep(s, av[1])))]

    def PartialEq__ne(self, s, f, av):
        return [(s, neg(eq(self.it.deep(s, av[0]), self.it.deep(s, av[1]))))]

    def PartialOrd__lt(self, s, f, av):
        return [(s, lt(self.dv(s, av[0]), self.dv(s, av[1])))]

    def PartialOrd__gt(self, s, f, av):
        return [(s, lt(self.dv(s, av[1]), self.dv(s, av[0])))]

    def PartialOrd__le(self, s, f, av):
        return [(s, le(self.dv(s, av[0]), self.dv(s, av[1])))]

    def PartialOrd__ge(self, s, f, av):
        return [(s, le(self.dv(s, av[1]), self.dv(s, av[0])))]

    def any__is_zero(self, s, f, av):
        return [(s, eq(self.dv(s, av[0]), ZERO))]

    def any__min(self, s, f, av):
        if len(av) != 2:
            return [(s, call("minof", self.dv(s, av[0])))]
        a, b = sorted([self.dv(s, av[0]), self.dv(s, av[1])], key=lambda t: t.id)
        if a.op == b.op == "int":
            return [(s, min(a, b, key=lambda t: t.a[0]))]
        return [(s, a if a is b else mk("min", a, b))]

    def any__max(self, s, f, av):
        if len(av) != 2:
            return [(s, call("maxof", self.dv(s, av[0])))]
        a, b = sorted([self.dv(s, av[0]), self.dv(s, av[1])], key=lambda t: t.id)
        if a.op == b.op == "int":
            return [(s, max(a, b, key=lambda t: t.a[0]))]
        return [(s, a if a is b else mk("max", a, b))]

    def RangeInclusive__new(self, s, f, av):
        return [(s, st("RangeInclusive", "", (("start", av[0]), ("end", av[1]))))]

    def RangeInclusive__start(self, s, f, av):
        return [(s, fld(self.dv(s, av[0]), "start"))]

    def RangeInclusive__end(self, s, f, av):
        return [(s, fld(self.dv(s, av[0]), "end"))]

    def RangeInclusive__contains(self, s, f, av):
        r, x = self.dv(s, av[0]), self.dv(s, av[1])
        return [(s, andb(le(fld(r, "start"), x), le(x, fld(r, "end"))))]

    def Range__contains(self, s, f, av):
        r, x = self.dv(s, av[0]), self.dv(s, av[1])
        return [(s, andb(le(fld(r, "start"), x), lt(x, fld(r, "end"))))]

    # -------------------------------------------------- arithmetic
    def bin2(self, op):
        def g(s, f, av):
            return [(s, op(self.dv(s, av[0]), self.dv(s, av[1])))]

        return g

    def Add__add(self, s, f, av):
        return [(s, add(self.dv(s, av[0]), self.dv(s, av[1])))]

    def Sub__sub(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        if not self.it.assume(s, le(b, a)):
            return []
        return [(s, sub(a, b))]

    def Mul__mul(self, s, f, av):
        return [(s, mul(self.dv(s, av[0]), self.dv(s, av[1])))]

    def Div__div(self, s, f, av):
        return [(s, div(self.dv(s, av[0]), self.dv(s, av[1])))]

    def asg(self, s, av, op):
        v = op(self.dv(s, av[0]), self.dv(s, av[1]))
        self.it.wptr(s, av[0], v)
        return [(s, UNIT)]

    def AddAssign__add_assign(self, s, f, av):
        return self.asg(s, av, add)

    def SubAssign__sub_assign(self, s, f, av):
        if not self.it.assume(s, le(self.dv(s, av[1]), self.dv(s, av[0]))):
            return []
        return self.asg(s, av, sub)

    def MulAssign__mul_assign(self, s, f, av):
        return self.asg(s, av, mul)

    def DivAssign__div_assign(self, s, f, av):
        return self.asg(s, av, div)

    def any__checked_add(self, s, f, av):
        return [(s, mk("chk", "add", self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__checked_sub(self, s, f, av):
        return [(s, mk("chk", "sub", self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__checked_mul(self, s, f, av):
        return [(s, mk("chk", "mul", self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__checked_div(self, s, f, av):
        return [(s, mk("chk", "div", self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__checked_multiply_ratio(self, s, f, av):
        a, b, c = [self.dv(s, x) for x in av]
        return [(s, mk("chk", "div", mul(a, b), c))]

    def any__multiply_ratio(self, s, f, av):
        a, b, c = [self.dv(s, x) for x in av]
        return [(s, div(mul(a, b), c))]

    def any__from_ratio(self, s, f, av):
        return [(s, div(self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__checked_from_ratio(self, s, f, av):
        return [(s, mk("chk", "div", self.dv(s, av[0]), self.dv(s, av[1])))]

    def any__overflowing_add(self, s, f, av):
        return [(s, tup(add(self.dv(s, av[0]), self.dv(s, av[1])), mk("ovf")))]

    def any__decimal_places(self, s, f, av):
        return [(s, INT(18))]

    def any__pow(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        if a.op == "int" and b.op == "int" and 0 <= b.a[0] <= 80:
            return [(s, INT(a.a[0] ** b.a[0]))]
        return [(s, call("pow", a, b))]

    def Decimal__to_uint_floor(self, s, f, av):
        return [(s, self.dv(s, av[0]))]

    Decimal256__to_uint_floor = Decimal__to_uint_floor

    def any__zero(self, s, f, av):
        return [(s, ZERO)]

    def any__one(self, s, f, av):
        return [(s, call("one", STR(f["name"].split("::")[-2])))] if "ecimal" in f["name"] else [(s, ONE)]

    def any__max_value(self, s, f, av):
        return [(s, mk("const", "MAX"))]

    def any__mul_floor(self, s, f, av):
        return [(s, mul(self.dv(s, av[0]), self.dv(s, av[1])))]

    any__full_mul = any__mul_floor

    def any__percent(self, s, f, av):
        return [(s, div(mul(self.dv(s, av[0]), call("one", STR("Decimal"))), INT(100)))]

    def any__bps(self, s, f, av):
        return [(s, div(mul(self.dv(s, av[0]), call("one", STR("Decimal"))), INT(10000)))]

    # -------------------------------------------------- Option / Result
    def opt_map(self, s, v, good_f, bad_f):
        out = []
        for n, g, p in self.split(s, v):
            out += good_f(n, p) if g else bad_f(n)
        return self.fin(out)

    def Option__map(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(m, good(r)) for m, r in self.it.apply(n, av[1], [p])], lambda n: [(n, BAD)])

    Result__map = Option__map

    def Option__and_then(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.it.apply(n, av[1], [p]), lambda n: [(n, BAD)])

    Result__and_then = Option__and_then

    def Option__or_else(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, good(p))], lambda n: self.it.apply(n, av[1], []))

    def Result__or_else(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, good(p))], lambda n: self.it.apply(n, av[1], [mk("sym", "err")]))

    def Option__or(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, good(p))], lambda n: [(n, self.dv(n, av[1]))])

    def Option__unwrap_or(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, p)], lambda n: [(n, self.dv(n, av[1]))])

    Result__unwrap_or = Option__unwrap_or

    def Option__unwrap_or_else(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, p)], lambda n: self.it.apply(n, av[1], []))

    def Result__unwrap_or_else(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, p)], lambda n: self.it.apply(n, av[1], [mk("sym", "err")]))

    def Option__unwrap_or_default(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, p)], lambda n: [(n, self.default(self.targ(f, 0)))])

    Result__unwrap_or_default = Option__unwrap_or_default

    def Option__map_or(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.it.apply(n, av[2], [p]), lambda n: [(n, self.dv(n, av[1]))])

    def Option__map_or_else(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.it.apply(n, av[2], [p]), lambda n: self.it.apply(n, av[1], []))

    def Option__is_some_and(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.it.apply(n, av[1], [p]), lambda n: [(n, FALSE)])

    def Option__is_none_or(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.it.apply(n, av[1], [p]), lambda n: [(n, TRUE)])

    Result__is_ok_and = Option__is_some_and

    def Option__filter(self, s, f, av):
        def g(n, p):
            c, m = self.bools(n, av[1], p)
            a, b = m.copy(), m.copy()
            out = []
            if self.it.assume(a, c):
                out.append((a, good(p)))
            if self.it.assume(b, neg(c)):
                out.append((b, BAD))
            return out

        return self.opt_map(s, av[0], g, lambda n: [(n, BAD)])

    def Option__is_some(self, s, f, av):
        return [(s, isok(self.dv(s, av[0])))]

    Result__is_ok = Option__is_some

    def Option__is_none(self, s, f, av):
        return [(s, neg(isok(self.dv(s, av[0]))))]

    Result__is_err = Option__is_none

    def unwrap(self, s, f, av):
        v = self.dv(s, av[0])
        if not self.it.assume(s, isok(v)):
            return []
        return [(s, ok(v))]

    Option__unwrap = Option__expect = Result__unwrap = Result__expect = unwrap

    def Option__take(self, s, f, av):
        v = self.dv(s, av[0])
        self.it.wptr(s, av[0], BAD)
        return [(s, v)]

    def mem__take(self, s, f, av):
        v = self.dv(s, av[0])
        self.it.wptr(s, av[0], self.default(self.targ(f, 0)))
        return [(s, v)]

    def mem__replace(self, s, f, av):
        v = self.dv(s, av[0])
        self.it.wptr(s, av[0], self.dv(s, av[1]))
        return [(s, v)]

    def mem__swap(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        self.it.wptr(s, av[0], b)
        self.it.wptr(s, av[1], a)
        return [(s, UNIT)]

    Option__replace = mem__replace

    def Option__insert(self, s, f, av):
        self.it.wptr(s, av[0], good(self.dv(s, av[1])))
        p = av[0]
        if p.op == "mptr":
            return [(s, mk("mptr", p.a[0], p.a[1], p.a[2] + (("ok",),)))]
        return [(s, self.dv(s, av[1]))]

    def Option__as_mut(self, s, f, av):
        p = av[0]
        v = self.dv(s, p)
        if p.op != "mptr":
            return [(s, v)]
        q = mk("mptr", p.a[0], p.a[1], p.a[2] + (("ok",),))
        k = isok(v)
        if k is TRUE:
            return [(s, good(q))]
        if k is FALSE:
            return [(s, BAD)]
        if k.op == "alt":
            return [(s, alt([(EMPTY, good(q)), (EMPTY, BAD)]))]
        return [(s, alt([(frozenset([k]), good(q)), (frozenset([neg(k)]), BAD)]))]

    def Option__get_or_insert_with(self, s, f, av):
        out = []
        for n, g, p in self.split(s, av[0]):
            if g:
                out.append((n, UNIT))
            else:
                for m, r in self.it.apply(n, av[1], []):
                    self.it.wptr(m, av[0], good(r))
                    out.append((m, UNIT))
        out = self.fin(out)
        p = av[0]
        q = mk("mptr", p.a[0], p.a[1], p.a[2] + (("ok",),)) if p.op == "mptr" else ok(self.dv(s, p))
        return [(m, q) for m, _ in out]

    def Option__transpose(self, s, f, av):
        def one(x):
            if x.op == "bad":
                return good(BAD)
            if x.op == "good":
                y = x.a[0]
                return alt(
                    (g, good(z) if z.op in ("good",) else (BAD if z.op == "bad" else mk("tr", z))) for g, z in alts(y)
                )
            return mk("tr", x)

        v = self.dv(s, av[0])
        out = []
        for g, x in alts(v):
            if x.op == "good":
                for h, y in alts(x.a[0]):
                    if y.op == "good":
                        out.append((g | h, good(good(y.a[0]))))
                    elif y.op == "bad":
                        out.append((g | h, BAD))
                    else:
                        out.append((g | h | {isok(y)}, good(good(ok(y)))))
                        out.append((g | h | {neg(isok(y))}, BAD))
            elif x.op == "bad":
                out.append((g, good(BAD)))
            else:
                k = isok(x)
                out.append((g | {neg(k)}, good(BAD)))
                out.append((g | {k, isok(ok(x))}, good(good(ok(ok(x))))))
                out.append((g | {k, neg(isok(ok(x)))}, BAD))
        return [(s, alt(out))]

    def Option__flatten(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: [(n, p)], lambda n: [(n, BAD)])

    def Option__zip(self, s, f, av):
        return self.opt_map(s, av[0], lambda n, p: self.opt_map(n, av[1], lambda m, q: [(m, good(tup(p, q)))], lambda m: [(m, BAD)]), lambda n: [(n, BAD)])

    def bool__then(self, s, f, av):
        c = self.dv(s, av[0])
        out = []
        a, b = s.copy(), s.copy()
        if self.it.assume(a, c):
            out += [(m, good(r)) for m, r in self.it.apply(a, av[1], [])]
        if self.it.assume(b, neg(c)):
            out.append((b, BAD))
        return self.fin(out)

    def bool__then_some(self, s, f, av):
        c = self.dv(s, av[0])
        out = []
        a, b = s.copy(), s.copy()
        if self.it.assume(a, c):
            out.append((a, good(self.dv(a, av[1]))))
        if self.it.assume(b, neg(c)):
            out.append((b, BAD))
        return self.fin(out)

    # -------------------------------------------------- function values
    def callfn(self, s, f, av):
        t = self.dv(s, av[1]) if len(av) > 1 else UNIT
        args = [v for _, v in t.a[2]] if t.op == "st" else ([] if t is UNIT else [t])
        return self.it.apply(s, av[0], args)

    FnOnce__call_once = Fn__call = FnMut__call_mut = callfn

    # -------------------------------------------------- collections
    def Vec__new(self, s, f, av):
        return [(s, arr())]

    Vec__with_capacity = HashMap__new = HashSet__new = BTreeMap__new = BTreeSet__new = Vec__new

    def String__from_utf8(self, s, f, av):
        x = self.dv(s, av[0])
        k = isok(call(f["name"], x))
        return [(s, alt([(frozenset([k]), good(x)), (frozenset([neg(k)]), BAD)]))]

    def String__new(self, s, f, av):
        return [(s, STR(""))]

    def any__len(self, s, f, av):
        return [(s, mklen(self.dv(s, av[0])))]

    def any__is_empty(self, s, f, av):
        v = self.dv(s, av[0])
        return [(s, eq(mklen(v), ZERO))]

    def Iterator__count(self, s, f, av):
        return [(s, mklen(self.dv(s, av[0])))]

    def push(self, s, f, av):
        c, x = self.dv(s, av[0]), self.it.deep(s, av[1])
        if all(y.op == "arr" and len(y.a) < 24 for _, y in alts(c)):
            live = self.it.deep(s, av[1], live=True)
            n = amap(lambda y: arr(*y.a, live), c)
        else:
            n = mk("app", c, x)
        self.it.wptr(s, av[0], n)
        return [(s, UNIT)]

    Vec__push = VecDeque__push_back = push

    def Vec__insert(self, s, f, av):
        c, i = self.dv(s, av[0]), self.dv(s, av[1])
        if i.op == "int" and c.op == "arr" and i.a[0] <= len(c.a) < 24:
            x = self.it.deep(s, av[2])
            self.it.wptr(s, av[0], arr(*c.a[: i.a[0]], x, *c.a[i.a[0] :]))
            return [(s, UNIT)]
        return self.push(s, f, [av[0], av[2]])

    def HashSet__insert(self, s, f, av):
        c, x = self.dv(s, av[0]), self.it.deep(s, av[1])
        self.it.wptr(s, av[0], mk("app", c, x))
        return [(s, neg(self.contains(c, x)))]

    def contains(self, c, x):
        if c.op == "arr":
            return orb(*[eq(y, x) for y in c.a])
        if c.op == "ext":
            return orb(*[self.contains(y, x) for y in c.a])
        if c.op == "app":
            return orb(self.contains(c.a[0], x), eq(c.a[1], x))
        if c.op == "coll" and c.a[1] == "set" and c.a[0].op == "arr":
            return self.contains(c.a[0], x)
        b = srcof(c)
        i = iterinfo(c)
        if b.op in ("fld", "sym", "ok", "pay", "call") and len(i) == 1 and not i[0][0]:
            return mk("any", b, eq(x, i[0][1]))
        return mk("contains", c, x)

    def HashSet__difference(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        return [(s, mk("mapc", a, tuple((g | {neg(self.contains(b, x))}, x) for g, x in iterinfo(a)), ("filter",)))]

    BTreeSet__difference = HashSet__difference

    def HashSet__intersection(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        return [(s, mk("mapc", a, tuple((g | {self.contains(b, x)}, x) for g, x in iterinfo(a)), ("filter",)))]

    BTreeSet__intersection = HashSet__intersection

    def HashSet__is_subset(self, s, f, av, flip=False, inside=True):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        if flip:
            a, b = b, a
        c = a.a[0] if a.op == "coll" and a.a[1] == "set" else a
        if c.op == "arr" and len(c.a) <= 6:
            has = [self.contains(b, x) for x in c.a]
            return [(s, andb(*(has if inside else [neg(x) for x in has])))]
        return [(s, call("is_subset" if inside else "is_disjoint", a, b))]

    def HashSet__is_superset(self, s, f, av):
        return self.HashSet__is_subset(s, f, av, flip=True)

    def HashSet__is_disjoint(self, s, f, av):
        return self.HashSet__is_subset(s, f, av, inside=False)

    BTreeSet__is_subset, BTreeSet__is_superset, BTreeSet__is_disjoint = HashSet__is_subset, HashSet__is_superset, HashSet__is_disjoint

    def HashSet__get(self, s, f, av):
        x = self.dv(s, av[1])
        k = self.contains(self.dv(s, av[0]), x)
        return [(s, alt([(frozenset([k]), good(x)), (frozenset([neg(k)]), BAD)]))]

    BTreeSet__get = HashSet__get

    BTreeSet__insert = HashSet__insert

    def entries(self, c):
        """the alternatives of a map: [(facts, concrete entries or None)]"""
        out = []
        for g, x in alts(c):
            for h, b in alts(x.a[0] if x.op == "coll" and x.a[1] == "map" else x):
                out.append((g | h, b if b.op == "arr" and all(y.op == "st" and y.a[0] == "tuple" for y in b.a) else None))
        return out

    def lookup(self, b, k):
        for x in reversed(b.a):
            e = eq(fld(x, "0"), k)
            if e is TRUE:
                return good(fld(x, "1"))
            if e is not FALSE:
                return None
        return BAD

    def mapget(self, c, k):
        es = self.entries(c)
        vs = [(g, self.lookup(b, k) if b is not None else None) for g, b in es]
        if len(vs) > 8 or any(v is None for _, v in vs):
            return call("mapget", c, k)
        return alt(vs)

    def HashMap__insert(self, s, f, av):
        c, k, x = self.dv(s, av[0]), self.it.deep(s, av[1]), self.it.deep(s, av[2])
        old = self.mapget(c, k)
        es = self.entries(c)
        if len(es) <= 8 and all(b is not None and len(b.a) < 24 and self.lookup(b, k) is not None for _, b in es):
            n = []
            for g, b in es:
                new = tup(k, x)
                ys = [new if eq(fld(y, "0"), k) is TRUE else y for y in b.a]
                n.append((g, mk("coll", arr(*ys, *([] if new in ys else [new])), "map")))
            n = alt(n)
        else:
            n = mk("app", c, tup(k, x))
        self.it.wptr(s, av[0], n)
        return [(s, old)]

    BTreeMap__insert = HashMap__insert

    def HashMap__get(self, s, f, av):
        return [(s, self.mapget(self.dv(s, av[0]), self.it.deep(s, av[1])))]

    BTreeMap__get = HashMap__get

    def HashMap__contains_key(self, s, f, av):
        return [(s, isok(self.mapget(self.dv(s, av[0]), self.it.deep(s, av[1]))))]

    BTreeMap__contains_key = HashMap__contains_key

    def HashMap__into_values(self, s, f, av):
        c = self.dv(s, av[0])
        es = self.entries(c)
        if all(b is not None for _, b in es):
            return [(s, alt((g, arr(*[fld(y, "1") for y in b.a])) for g, b in es))]
        return [(s, mk("mapc", c, tuple((g, fld(e, "1")) for g, e in iterinfo(c)), ()))]

    HashMap__values = HashMap__into_values

    def HashMap__keys(self, s, f, av):
        c = self.dv(s, av[0])
        es = self.entries(c)
        if all(b is not None for _, b in es):
            return [(s, alt((g, arr(*[fld(y, "0") for y in b.a])) for g, b in es))]
        return [(s, mk("mapc", c, tuple((g, fld(e, "0")) for g, e in iterinfo(c)), ()))]

    def extend(self, s, f, av):
        c, x = self.dv(s, av[0]), self.dv(s, av[1])
        if c.op == "arr" and not c.a:
            n = x
        elif c.op == "arr" and x.op == "arr" and len(c.a) + len(x.a) < 24:
            n = arr(*c.a, *x.a)
        elif all(y.op == "arr" for z in (c, x) for _, y in alts(z)) and len(alts(c)) * len(alts(x)) <= 12:
            n = alt((g | h, arr(*y.a, *z.a)) for g, y in alts(c) for h, z in alts(x))
        else:
            n = mk("ext", c, x)
        self.it.wptr(s, av[0], n)
        return [(s, UNIT)]

    Extend__extend = Vec__extend_from_slice = extend

    def Vec__append(self, s, f, av):
        r = self.extend(s, f, av)
        self.it.wptr(s, av[1], arr())
        return r

    def any__clear(self, s, f, av):
        self.it.wptr(s, av[0], arr())
        return [(s, UNIT)]

    def Vec__retain(self, s, f, av):
        c = self.dv(s, av[0])
        if self.concretes(c):
            out = []
            for m, x in self.apart(s, c):
                self.it.wptr(m, av[0], x)
                out += self.Vec__retain(m, f, av)
            return out
        s2, fc = self.filt(s, c, av[1])
        self.it.wptr(s2, av[0], fc)
        return [(s2, UNIT)]

    def Vec__remove(self, s, f, av):
        c, i = self.dv(s, av[0]), self.dv(s, av[1])
        if c.op == "arr" and i.op == "int" and i.a[0] < len(c.a):
            l = list(c.a)
            x = l.pop(i.a[0])
            self.it.wptr(s, av[0], arr(*l))
            return [(s, x)]
        self.it.wptr(s, av[0], mk("filt", c, EMPTY, mk("sym", "removed")))
        return [(s, idx(c, i))]

    Vec__swap_remove = Vec__remove

    def slice__swap(self, s, f, av):
        c, i, j = [self.dv(s, a) for a in av]
        if c.op == "arr" and i.op == "int" and j.op == "int":
            l = list(c.a)
            l[i.a[0]], l[j.a[0]] = l[j.a[0]], l[i.a[0]]
            self.it.wptr(s, av[0], arr(*l))
        elif i.op == "int" and j.op == "int":
            n = set_path(set_path(c, (("i", i),), idx(c, j)), (("i", j),), idx(c, i))
            self.it.wptr(s, av[0], n)
        else:
            self.it.wptr(s, av[0], mk("sorted", c))
        return [(s, UNIT)]

    def sorts(self, s, c, how=None, args=0):
        """the elements of c in the order of what they are: for a list of known length, whatever order they came in"""
        if c.op == "arr" and len(c.a) > 1:
            xs = [mk("sym", "left"), mk("sym", "right")][:args]
            rs = [self.dv(m, r) for m, r in self.it.apply(s.copy(), how, xs)] if args else []

            def plain(r):
                return all(contains(r, x) for x in xs) and all(y.op in ("sym", "fld", "alt", "ok", "tup") or y.op == "call" and y.a[0].rsplit("::")[-1] in ("cmp", "partial_cmp") for y in walk(r) if y.op not in ("is", "isok"))

            if all(plain(r) for r in rs):
                c = arr(*sorted(c.a, key=lambda x: x.id))
        return mk("sorted", c)

    def sort(self, s, f, av):
        if av[0].op == "mptr":
            self.it.wptr(s, av[0], self.sorts(s, self.dv(s, av[0]), None))
        return [(s, UNIT)]

    slice__sort_unstable = sort

    def sort_by(self, s, f, av, args=2):
        if av[0].op == "mptr":
            self.it.wptr(s, av[0], self.sorts(s, self.dv(s, av[0]), av[1], args))
        return [(s, UNIT)]

    def sort_by_key(self, s, f, av):
        return self.sort_by(s, f, av, 1)

    slice__sort = sort
    slice__sort_by = slice__sort_unstable_by = sort_by
    slice__sort_by_key = slice__sort_unstable_by_key = slice__sort_by_cached_key = sort_by_key

    def slice__reverse(self, s, f, av):
        if av[0].op == "mptr":
            self.it.wptr(s, av[0], self.overarr(self.dv(s, av[0]), lambda x: arr(*x.a[::-1]), lambda x: mk("rev", x)))
        return [(s, UNIT)]

    def Itertools__sorted(self, s, f, av):
        return [(s, self.sorts(s, self.dv(s, av[0]), None))]

    Itertools__sorted_unstable = Itertools__sorted

    def Itertools__sorted_by(self, s, f, av):
        return [(s, self.sorts(s, self.dv(s, av[0]), av[1], 2))]

    def Itertools__sorted_by_key(self, s, f, av):
        return [(s, self.sorts(s, self.dv(s, av[0]), av[1], 1))]

    def Index__index(self, s, f, av):
        c, i = self.dv(s, av[0]), self.dv(s, av[1])
        if i.op == "st":
            b = [v for _, v in i.a[2]]
            if c.op == "ext" and c.a[0].op == "arr" and i.a[0].endswith("RangeFrom") and b[0] is INT(len(c.a[0].a)):
                return [(s, c.a[1])]
            kind = i.a[0].rsplit("::")[-1]
            if c.op == "arr" and all(x.op == "int" for x in b):
                n = [x.a[0] for x in b]
                lo, hi = {"Range": n, "RangeFrom": n + [len(c.a)], "RangeTo": [0] + n, "RangeFull": [0, len(c.a)]}.get(kind) or (None, None)
                if kind == "RangeToInclusive":
                    lo, hi = 0, n[0] + 1
                if lo is not None and lo <= hi <= len(c.a):
                    return [(s, arr(*c.a[lo:hi]))]
            return [(s, mk("slice", c, *b, STR(kind)))]
        return [(s, idx(c, i))]

    def IndexMut__index_mut(self, s, f, av):
        p, i = av[0], self.dv(s, av[1])
        if p.op == "mptr":
            return [(s, mk("mptr", p.a[0], p.a[1], p.a[2] + (("i", i),)))]
        return [(s, idx(self.dv(s, p), i))]

    def slice__get(self, s, f, av):
        return [(s, mk("get", self.dv(s, av[0]), self.dv(s, av[1])))]

    def slice__first(self, s, f, av):
        return [(s, mk("get", self.dv(s, av[0]), ZERO))]

    def slice__last(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr" and c.a:
            return [(s, good(c.a[-1]))]
        return [(s, call("last", c))]

    Iterator__last = slice__last

    def slice__last_mut(self, s, f, av):
        p = av[0]
        c = self.dv(s, p)
        if c.op == "arr":
            if not c.a:
                return [(s, BAD)]
            return [(s, good(self.mutarr(p, c).a[-1] if p.op == "mptr" else c.a[-1]))]
        return self.it.opaque_call(s, "last_mut", av)

    def slice__first_mut(self, s, f, av):
        p = av[0]
        c = self.dv(s, p)
        if c.op == "arr":
            if not c.a:
                return [(s, BAD)]
            return [(s, good(self.mutarr(p, c).a[0] if p.op == "mptr" else c.a[0]))]
        return self.it.opaque_call(s, "first_mut", av)

    def slice__get_mut(self, s, f, av):
        p, i = av[0], self.dv(s, av[1])
        c = self.dv(s, p)
        k = isok(mk("get", c, i))
        q = good(mk("mptr", p.a[0], p.a[1], p.a[2] + (("i", i),))) if p.op == "mptr" else good(idx(c, i))
        return [(s, alt([(frozenset([k]), q), (frozenset([neg(k)]), BAD)]))]

    def slice__contains(self, s, f, av):
        c, x = self.dv(s, av[0]), self.it.deep(s, av[1])
        return [(s, self.contains(c, x))]

    Vec__contains = HashSet__contains = BTreeSet__contains = slice__contains

    def Itertools__all_unique(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr" and len(c.a) <= 4:
            return [(s, andb(*[neg(eq(x, y)) for i, x in enumerate(c.a) for y in c.a[:i]]))]
        return [(s, call("all_unique", self.dv(s, av[0])))]

    def Itertools__unique(self, s, f, av):
        return [(s, mk("coll", self.dv(s, av[0]), "unique"))]

    def Box__new_uninit(self, s, f, av):
        return [(s, mk("st", "newbox", "", ()))]

    def boxed__box_assume_init_into_vec_unsafe(self, s, f, av):
        v = self.dv(s, av[0])
        return [(s, fld(fld(v, "1"), "value"))]

    # -------------------------------------------------- iterators
    def into_iter(self, s, f, av):
        p = av[0]
        if p.op == "mptr":
            c = self.dv(s, p)
            if "&mut" in self.targ(f, 0) or f["name"].endswith("iter_mut"):
                if c.op == "arr":
                    return [(s, self.mutarr(p, c))]
                if "iter" in self.targ(f, 0).lower() and c.op not in ("arr",) and not f["name"].endswith("iter_mut"):
                    return [(s, c)]
                return [(s, mk("imut", p))]
            return [(s, c)]
        v = self.dv(s, p)
        if v.op == "st" and v.a[0] in ("core::ops::range::Range", "RangeInclusive"):
            a, b = v.a[2][0][1], v.a[2][1][1]
            if a.op == "int" and b.op == "int":
                e = b.a[0] + (v.a[0] == "RangeInclusive")
                if e - a.a[0] <= 12:
                    return [(s, arr(*[INT(i) for i in range(a.a[0], e)]))]
            return [(s, mk("coll", mk("rangeof", a, b), "range"))]
        return [(s, amap(self.listed, v))]

    IntoIterator__into_iter = into_iter

    def listiter(self, s, f, av):
        return [(s, amap(self.listed, self.dv(s, av[0])))]
    HashMap__iter = HashMap__into_iter = HashSet__iter = HashSet__into_iter = BTreeMap__iter = BTreeSet__iter = listiter

    def listed(self, c):
        """the elements of a concrete map or set"""
        if c.op == "coll" and c.a[1] in ("map", "set") and c.a[0].op == "arr":
            ks = [fld(x, "0") if c.a[1] == "map" else x for x in c.a[0].a]
            if all(eq(x, y) is FALSE for i, x in enumerate(ks) for y in ks[:i]):
                return c.a[0]
        return c

    def mutarr(self, p, c):
        return arr(*[mk("mptr", p.a[0], p.a[1], p.a[2] + (("i", INT(i)),)) for i in range(len(c.a))])

    def slice__iter_mut(self, s, f, av):
        if av[0].op == "mptr" and self.dv(s, av[0]).op == "arr":
            return [(s, self.mutarr(av[0], self.dv(s, av[0])))]
        if av[0].op == "mptr" and self.concretes(self.dv(s, av[0])):
            out = []
            for m, x in self.apart(s, self.dv(s, av[0])):
                self.it.wptr(m, av[0], x)
                out.append((m, self.mutarr(av[0], x)))
            return out
        if av[0].op == "mptr":
            return [(s, mk("imut", av[0]))]
        return [(s, self.dv(s, av[0]))]

    Vec__iter_mut = HashMap__iter_mut = slice__iter_mut

    def HashMap__values_mut(self, s, f, av):
        return self.slice__iter_mut(s, f, av)

    def Iterator__next(self, s, f, av):
        c = self.dv(s, av[0])
        if av[0].op == "mptr" and all(x.op == "arr" for _, x in alts(c)):
            mode = self.it.loops[-1] if self.it.inloop else None
            if mode is None or mode["unroll"]:
                if mode is not None:
                    mode["hits"] += 1
                return self.popc(s, av[0], c)
        if not self.it.inloop and av[0].op == "mptr":
            self.it.wptr(s, av[0], mk("rest", c))
        n = mk("next", c)
        for x in (isok(n), neg(isok(n))):
            if x in s.facts and x.op in ("isok", "not"):
                s.facts = s.facts - {x}
        return [(s, mk("next", c))]

    def popc(self, s, p, c, back=False):
        """takes the next element of a concrete collection"""
        out = []
        for g, x in alts(c):
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            if x.a:
                self.it.wptr(n, p, arr(*(x.a[:-1] if back else x.a[1:])))
                out.append((n, good(x.a[-1 if back else 0])))
            else:
                self.it.wptr(n, p, x)
                out.append((n, BAD))
        gs = [o for o in out if o[1].op == "good"]
        bs = [o for o in out if o[1].op == "bad"]
        return self.fin(gs) + self.fin(bs)

    def overarr(self, c, fn, sym):
        """fn on concrete collections (alternatives included), sym otherwise"""
        return amap(lambda x: fn(x) if x.op == "arr" else sym(x), c)

    def Iterator__enumerate(self, s, f, av):
        return [(s, self.overarr(self.dv(s, av[0]), lambda x: arr(*[tup(INT(i), y) for i, y in enumerate(x.a)]), lambda x: mk("enum", x)))]

    def Iterator__rev(self, s, f, av):
        return [(s, self.overarr(self.dv(s, av[0]), lambda x: arr(*x.a[::-1]), lambda x: mk("rev", x)))]

    def Iterator__take(self, s, f, av):
        n = self.dv(s, av[1])
        if n.op != "int":
            return [(s, mk("take", self.dv(s, av[0]), n))]
        return [(s, self.overarr(self.dv(s, av[0]), lambda x: arr(*x.a[: n.a[0]]), lambda x: mk("take", x, n)))]

    def Iterator__skip(self, s, f, av):
        n = self.dv(s, av[1])
        if n.op != "int":
            return [(s, mk("skip", self.dv(s, av[0]), n))]
        return [(s, self.overarr(self.dv(s, av[0]), lambda x: arr(*x.a[n.a[0] :]), lambda x: mk("skip", x, n)))]

    def Iterator__zip(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        if "into_iter" not in f["name"]:
            b = self.into_iter(s, {"targs": ["iter"], "name": "x"}, [b])[0][1]
        if a.op == "arr" and b.op == "arr":
            return [(s, arr(*[tup(x, y) for x, y in zip(a.a, b.a)]))]
        return [(s, mk("zip", a, b))]

    def seq(self, s, xs, fn, pre=()):
        """applies a closure to known elements in order: (state, [results]); None when it never returns"""
        out = []
        for x in xs:
            rets = self.fin(self.it.apply(s, fn, [*pre, x]))
            if not rets:
                return None, out
            s, r = rets[0]
            out.append(self.it.deep(s, r, live=True))
        return s, out

    def Iterator__chain(self, s, f, av):
        a, b = self.dv(s, av[0]), self.dv(s, av[1])
        if a.op == "arr" and b.op == "arr":
            return [(s, arr(*a.a, *b.a))]
        if all(y.op == "arr" for z in (a, b) for _, y in alts(z)) and len(alts(a)) * len(alts(b)) <= 12:
            return [(s, alt((g | h, arr(*y.a, *z.a)) for g, y in alts(a) for h, z in alts(b)))]
        return [(s, mk("ext", a, b))]

    def grouped(self, s, c, fn, near):
        """[(facts, [(key, [elements])])] of a concrete collection grouped by key (only neighbours, or all), or None"""
        if c.op != "arr" or len(c.a) > (5 if near else 4):
            return None
        n, ks = self.seq(s.copy(), c.a, fn)
        if n is None:
            return None
        ks = [TRUE if k in n.facts else FALSE if k.op in BOOLS and neg(k) in n.facts else k for k in ks]
        cur = [(n, [])]
        for k, x in zip(ks, c.a):
            nxt = []
            for m, gs in cur:
                prev = range(len(gs))[-1:] if near else range(len(gs))
                for i in prev:
                    h = m.copy()
                    if self.it.assume(h, eq(gs[i][0], k)) and all(near or self.it.assume(h, neg(eq(gs[j][0], k))) for j in prev if j < i):
                        nxt.append((h, [(q, l + [x]) if j == i else (q, l) for j, (q, l) in enumerate(gs)]))
                h = m.copy()
                if all(self.it.assume(h, neg(eq(gs[i][0], k))) for i in prev):
                    nxt.append((h, gs + [(k, [x])]))
            cur = nxt
            if len(cur) > 24:
                return None
        return [(h, arr(*[tup(k, arr(*l)) for k, l in gs])) for h, gs in cur]

    def groups(near):
        def g(self, s, f, av):
            c = self.dv(s, av[0])
            out = []
            for m, x in self.apart(s, c) if self.concretes(c) else [(s, c)]:
                r = self.grouped(m, x, av[1], near)
                if r is None:
                    return self.payfn(s, f, av)
                out += r
            return out

        return g

    Itertools__group_by = Itertools__chunk_by = groups(True)
    Itertools__into_group_map_by = groups(False)

    def each(self, s, c, f):
        """applies closure to every possible element: ([(delta facts, result)], state after)"""

        def once(s):
            base = s.facts
            res, ends = [], []
            for g, e in iterinfo(c):
                n = s.copy()
                if not all(self.it.addfact(n, h) for h in g):
                    continue
                for m, r in self.it.apply(n, f, [e]):
                    r = self.it.deep(m, r)
                    res.append((frozenset(m.facts - base), r))
                    ends.append(m)
            return res, ends

        return self.widen(s, once, c)

    def widen(self, s, once, c=None):
        """closure bodies run an unknown number of times: what they change becomes a loop value"""
        it = self.it
        n_eff = len(it.effects)
        cur, phis = s.copy(), {}
        lid = newloop()
        for _ in range(4):
            del it.effects[n_eff:]
            res, ends = once(cur.copy())
            if not ends:
                return res, [s.copy()]
            bk, _ = it.merge(ends)
            changed = False
            for fr in list(cur.fr):
                if fr not in bk.fr or bk.fr[fr] is cur.fr[fr]:
                    continue
                for k, v in list(cur.fr[fr].items()):
                    w = bk.fr[fr].get(k)
                    if w is not None and w is not v and (fr, k) not in phis:
                        ph = mk("phi", lid, fr, k)
                        phis[(fr, k)] = (ph, v)
                        cur.put(fr, k, ph)
                        changed = True
            if not changed:
                break
        if not phis:
            return res, [s.copy()] + ends
        rep = {}
        for (fr, k), (ph, v0) in phis.items():
            step = (bk.fr.get(fr) or {}).get(k, ph)
            PHI[ph] = (v0, step)
            r = it.resolve_phi(ph, v0, step, c)
            if r is not None:
                rep[ph] = r
        # afterwards: the loop value itself stands for any number of rounds
        ends = [cur.copy()] + ends
        for m in ends:
            for (fr, k), (ph, _) in phis.items():
                if fr in m.fr:
                    m.put(fr, k, rep.get(ph, ph))
        return res, ends

    def join_end(self, s, ends):
        """state after an unknown number of closure runs"""
        m, _ = self.it.merge(ends)
        return m

    def seqmap(self, s, c, fn):
        """[(facts, results)] of a closure on every alternative of a concrete collection, or None"""
        if not all(x.op == "arr" for _, x in alts(c)):
            return None
        if c.op == "arr":
            n, vs = self.seq(s, c.a, fn)
            return [] if n is None else [(n, vs)]
        out = []
        for g, x in alts(c):
            n = s.copy()
            if all(self.it.addfact(n, h) for h in g):
                n, vs = self.seq(n, x.a, fn)
                if n is not None:
                    out.append((n, vs))
        return out

    def subsets(self, s, choices):
        """choices: per element, the possible results ([facts, term or None]) ; value: the list of those present"""
        base = s.facts
        cur = [(s, [])]
        for ch in choices:
            nxt = []
            for n, l in cur:
                for g, x in ch:
                    m = n.copy()
                    if all(self.it.assume(m, h) for h in g):
                        nxt.append((m, l if x is None else l + [x]))
            cur = nxt
            if len(cur) > 40:
                return None
        return alt((frozenset(n.facts - base), arr(*l)) for n, l in cur)

    def Iterator__map(self, s, f, av):
        c = self.dv(s, av[0])
        q = self.seqmap(s, c, av[1])
        if q is not None:
            return self.fin([(n, arr(*vs)) for n, vs in q])
        res, ends = self.each(s, c, av[1])
        n = self.join_end(s, ends)
        return [(n, mk("mapc", c, tuple(res), ()))]

    def optitems(self, r):
        """what one result contributes to a flattened collection: [(facts, [items])], or None when unknown"""
        out = []
        for g, x in alts(r):
            if x.op == "good":
                out.append((g, [x.a[0]]))
            elif x.op == "bad":
                out.append((g, []))
            elif x.op == "arr":
                out.append((g, list(x.a)))
            else:
                return None
        return out

    def flatcat(self, s, vs):
        base = s.facts
        cur = [(s, [])]
        for r in vs:
            its = self.optitems(r)
            if its is None:
                return None
            nxt = []
            for n, l in cur:
                for g, xs in its:
                    m = n.copy()
                    if all(self.it.addfact(m, h) for h in g):
                        nxt.append((m, l + xs))
            cur = nxt
            if len(cur) > 40:
                return None
        return alt((frozenset(n.facts - base), arr(*l)) for n, l in cur)

    @peralt
    def Iterator__flat_map(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            n, vs = self.seq(s.copy(), c.a, av[1])
            if n is None:
                return []
            v = self.flatcat(n, vs)
            if v is not None:
                return [(n, v)]
        res, ends = self.each(s, c, av[1])
        n = self.join_end(s, ends)
        out = []
        for g, r in res:
            out += [(g | h, x) for h, x in iterinfo(r)]
        return [(n, mk("mapc", c, tuple(out), ("flat",)))]

    @peralt
    def Iterator__flatten(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            v = self.flatcat(s, c.a)
            if v is not None:
                return [(s, v)]
        out = []
        for g, r in iterinfo(c):
            for h, x in alts(r):
                if x.op == "good":
                    out.append((g | h, x.a[0]))
                elif x.op == "bad":
                    continue
                elif x.op in ("arr", "mapc", "app", "ext", "filt"):
                    out += [(g | h | k, y) for k, y in iterinfo(x)]
                else:
                    out.append((g | h, mk("elem", x)))
        return [(s, mk("mapc", c, tuple(out), ("flat",)))]

    @peralt
    def Iterator__filter_map(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            n, vs = self.seq(s.copy(), c.a, av[1])
            if n is None:
                return []
            v = self.subsets(n, [[(frozenset([isok(r)]), ok(r)), (frozenset([neg(isok(r))]), None)] for r in vs])
            if v is not None:
                return [(n, v)]
        res, ends = self.each(s, c, av[1])
        n = self.join_end(s, ends)
        out = []
        for g, r in res:
            for h, x in alts(r):
                if x.op == "good":
                    out.append((g | h, x.a[0]))
                elif x.op != "bad":
                    out.append((g | h | {isok(x)}, ok(x)))
        return [(n, mk("mapc", c, tuple(out), ("filter",)))]

    def filt(self, s, c, fn):
        if c.op == "arr":
            n, ks = self.seq(s.copy(), c.a, fn)
            if n is not None:
                v = self.subsets(n, [[(frozenset([k]), x), (frozenset([neg(k)]), None)] for k, x in zip(ks, c.a)])
                if v is not None:
                    return n, v
        out = []
        ends = [s.copy()]
        info = iterinfo(c)
        for g, e in info:
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            cond, m = self.bools(n, fn, e)
            ends.append(m)
            k = m.copy()
            k.facts = s.facts
            if not self.it.assume(k, cond):
                continue
            out.append((g | frozenset(k.facts - s.facts), e))
        end = self.join_end(s, ends)
        return end, mk("mapc", c, tuple(out), ("filter",))

    @peralt
    def Iterator__filter(self, s, f, av):
        n, c = self.filt(s, self.dv(s, av[0]), av[1])
        return [(n, c)]

    def Iterator__take_while(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            c = mk("coll", c, "some")
        n, c = self.filt(s, c, av[1])
        return [(n, c)]

    Iterator__skip_while = Iterator__take_while

    def concretes(self, c):
        return c.op == "alt" and all(x.op == "arr" for _, x in alts(c))

    def apart(self, s, c):
        """[(state, concrete collection)] for the alternatives which are possible"""
        out = []
        for g, x in alts(c):
            m = s.copy()
            if all(self.it.assume(m, h) for h in g):
                out.append((m, x))
        return out

    def conds(self, s, c, fn):
        if c.op == "arr":
            n, ks = self.seq(s, c.a, fn)
            if n is not None:
                return [(EMPTY, x, self.dv(n, k)) for x, k in zip(c.a, ks)], n

        def once(s):
            out, ends = [], []
            for g, e in iterinfo(c):
                n = s.copy()
                if not all(self.it.addfact(n, h) for h in g):
                    continue
                k, m = self.bools(n, fn, e)
                out.append((g, e, k))
                ends.append(m)
            return out, ends

        out, ends = self.widen(s, once)
        return out, self.join_end(s, ends)

    def Iterator__any(self, s, f, av):
        c = self.dv(s, av[0])
        if self.concretes(c):
            return [x for m, y in self.apart(s, c) for x in self.Iterator__any(m, f, [y, av[1]])]
        cs, n = self.conds(s, c, av[1])
        if c.op == "arr":
            return [(n, orb(*[k for _, _, k in cs]))]
        k = alt([(g, k) for g, _, k in cs]) if cs else FALSE
        if k is FALSE:
            return [(n, FALSE)]
        return [(n, mk("any", srcof(c), k))]

    def Iterator__all(self, s, f, av):
        c = self.dv(s, av[0])
        if self.concretes(c):
            return [x for m, y in self.apart(s, c) for x in self.Iterator__all(m, f, [y, av[1]])]
        cs, n = self.conds(s, c, av[1])
        if c.op == "arr":
            return [(n, andb(*[k for _, _, k in cs]))]
        k = alt([(g, k) for g, _, k in cs]) if cs else TRUE
        if k is TRUE:
            return [(n, TRUE)]
        if k is FALSE:
            return [(n, eq(mklen(c), ZERO))]
        return [(n, mk("all", srcof(c), k))]

    def findlike(self, s, c, fn, wrap):
        if self.concretes(c):
            return [x for m, y in self.apart(s, c) for x in self.findlike(m, y, fn, wrap)]
        cs, n = self.conds(s, c, fn)
        out = []
        base = n.facts
        if c.op == "arr":
            for i, (g, e, k) in enumerate(cs):
                m = n.copy()
                if all(self.it.assume(m, neg(k2)) for _, _, k2 in cs[:i]) and self.it.assume(m, k):
                    out.append((frozenset(m.facts - base), good(wrap(i, e))))
            m = n.copy()
            if all(self.it.assume(m, neg(k)) for _, _, k in cs):
                out.append((frozenset(m.facts - base), BAD))
            return [(n, alt(out))]
        for g, e, k in cs:
            m = n.copy()
            if not self.it.assume(m, k):
                continue
            fs = frozenset(m.facts - base) | g
            roots = [x for x in walk(e) if x.op == "elem"]
            sb = {x: mk("fnd", x.a[0], andb(*sorted(g, key=lambda x: x.id), k)) for x in roots[:1]} if roots else {}
            e2 = subst(e, sb)
            fs = frozenset(subst(x, sb) for x in fs)
            out.append((fs, good(wrap(None, e2))))
        if not out:
            return [(n, BAD)]
        none = EMPTY
        if len(cs) == 1 and len(out) == 1:
            found = [x for x in walk(e2) if x.op == "fnd"][:1]
            if found:
                none = frozenset((neg(isok(found[0])),))
                out = [(f | {isok(found[0])}, y) for f, y in out]
        out.append((none, BAD))
        return [(n, alt(out))]

    def at(self, c):
        """a position in a reordered collection says nothing of one in the collection"""
        while c.op == "coll" or c.op == "mapc" and not c.a[2] and len(c.a[1]) == 1 and not c.a[1][0][0]:
            c = c.a[0]
        return "rposof" if c.op in ("sorted", "rev", "mapc", "filt") else "posof"

    def Iterator__find(self, s, f, av):
        return self.findlike(s, self.dv(s, av[0]), av[1], lambda i, e: e)

    def Itertools__find_position(self, s, f, av):
        c = self.dv(s, av[0])
        return self.findlike(s, c, av[1], lambda i, e: tup(INT(i) if i is not None else mk(self.at(c), e), e))

    def Iterator__position(self, s, f, av):
        c = self.dv(s, av[0])
        return self.findlike(s, c, av[1], lambda i, e: INT(i) if i is not None else mk(self.at(c), e))

    @peralt
    def Iterator__find_map(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            n, vs = self.seq(s, c.a, av[1])
            if n is None:
                return []
            out = []
            for i, r in enumerate(vs):
                m = n.copy()
                if all(self.it.assume(m, neg(isok(q))) for q in vs[:i]) and self.it.assume(m, isok(r)):
                    out.append((frozenset(m.facts - n.facts), good(ok(r))))
            m = n.copy()
            if all(self.it.assume(m, neg(isok(q))) for q in vs):
                out.append((frozenset(m.facts - n.facts), BAD))
            return [(n, alt(out))]
        res, ends = self.each(s, c, av[1])
        n = self.join_end(s, ends)
        out = []
        for g, r in res:
            for h, x in alts(r):
                if x.op == "good":
                    out.append((g | h, x))
                elif x.op != "bad":
                    out.append((g | h, x))
        out.append((EMPTY, BAD))
        return [(n, alt(out))]

    def Iterator__for_each(self, s, f, av):
        c = self.dv(s, av[0])
        q = self.seqmap(s, c, av[1])
        if q is not None:
            return self.fin([(n, UNIT) for n, _ in q])
        res, ends = self.each(s, c, av[1])
        return [(self.join_end(s, ends), UNIT)]

    def tryseq(self, s, xs, fn, acc):
        """fallible closure on known elements in order, stopping at the first failure"""
        bads = []
        for x in xs:
            rets = self.it.apply(s, fn, [x] if acc is None else [acc, x])
            oks_ = []
            for n, r in rets:
                for m, g, p in self.split(n, self.it.deep(n, r)):
                    if g:
                        oks_.append((m, p))
                    else:
                        bads.append((m, BAD))
            if not oks_:
                return self.fin(bads)
            s, v = self.fin(oks_)[0]
            acc = v if acc is not None else None
        return [(s, good(acc if acc is not None else UNIT))] + self.fin(bads)

    def Iterator__try_for_each(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            return self.tryseq(s, c.a, av[1], None)
        res, ends = self.each(s, c, av[1])
        n = self.join_end(s, ends)
        goods = []
        for g, r in res:
            for h, x in alts(r):
                if x.op == "good":
                    goods.append(g | h)
                elif x.op != "bad":
                    goods.append(g | h | {isok(x)})
        fs = EMPTY
        if not goods:
            fs = frozenset((eq(mklen(c), ZERO),))
        elif len(goods) == 1:
            fs = goods[0]
        elif goods:
            fs = goods[0]
            for x in goods[1:]:
                fs = fs & x
        return [(n, alt([(fs, good(UNIT)), (EMPTY, BAD)]))]

    def Iterator__fold(self, s, f, av):
        c, init = self.dv(s, av[0]), self.dv(s, av[1])
        if c.op == "arr":
            acc = init
            for x in c.a:
                rets = self.fin(self.it.apply(s, av[2], [acc, x]))
                if not rets:
                    return []
                s, acc = rets[0]
                acc = self.it.deep(s, acc)
            return [(s, acc)]
        acc = mk("phi", "fold", c, av[2], init)
        outs = []
        ends = [s.copy()]
        for g, e in iterinfo(c):
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            for m, r in self.it.apply(n, av[2], [acc, e]):
                outs.append((frozenset(m.facts - s.facts), self.it.deep(m, r)))
                ends.append(m)
        n = self.join_end(s, ends)
        if not outs:
            return [(n, init)]
        step = alt(outs)
        PHI[acc] = (init, step)
        r = self.it.resolve_phi(acc, init, step, c)
        return [(n, r if r is not None else acc)]

    def Iterator__try_fold(self, s, f, av):
        c, init = self.dv(s, av[0]), self.dv(s, av[1])
        if c.op == "arr":
            return self.tryseq(s, c.a, av[2], init)
        acc = mk("phi", "fold", c, av[2], init)
        outs, ends = [], [s.copy()]
        for g, e in iterinfo(c):
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            for m, r in self.it.apply(n, av[2], [acc, e]):
                outs.append((frozenset(m.facts - s.facts), self.it.deep(m, r)))
                ends.append(m)
        n = self.join_end(s, ends)
        goods = []
        for g, r in outs:
            for h, x in alts(r):
                if x.op == "good":
                    goods.append((g | h, x.a[0]))
                elif x.op != "bad":
                    goods.append((g | h | {isok(x)}, ok(x)))
        if not goods:
            return [(n, good(init))]
        step = alt(goods)
        PHI[acc] = (init, step)
        r = self.it.resolve_phi(acc, init, step, c)
        fs = goods[0][0]
        for g, _ in goods[1:]:
            fs = fs & g
        return [(n, alt([(fs, good(r if r is not None else acc)), (EMPTY, BAD)]))]

    def Iterator__sum(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "arr":
            r = ZERO
            for x in c.a:
                r = add(r, x)
            return [(s, r)]
        return [(s, mk("sum", self.it.chosen(c, elem(c))))]

    def oklist(self, s, c):
        """a concrete list of results as a result of a list"""
        out, bad = [], False
        for g, x in alts(c):
            n = s.copy()
            if not all(self.it.addfact(n, h) for h in g):
                continue
            if not all(isok(r) is TRUE for r in x.a):
                bad = True
            if all(self.it.assume(n, isok(r)) for r in x.a):
                out.append((frozenset(n.facts - s.facts), good(arr(*[ok(r) for r in x.a]))))
        if not out:
            return BAD
        return alt(out + [(EMPTY, BAD)]) if bad else alt(out)

    def Iterator__collect(self, s, f, av):
        c = self.dv(s, av[0])
        if c.op == "imut":
            c = self.dv(s, c.a[0])
        ty = f["targs"][-1] if f["targs"] else ""
        if ty.startswith(("core::result::Result<", "core::option::Option<")):
            if all(x.op == "arr" for _, x in alts(c)):
                return [(s, self.oklist(s, c))]
            goods, anybad = [], False
            for g, r in iterinfo(c):
                for h, x in alts(r):
                    if x.op == "good":
                        goods.append((g | h, x.a[0]))
                    elif x.op == "bad":
                        anybad = True
                    else:
                        anybad = True
                        goods.append((g | h | {isok(x)}, ok(x)))
            v = mk("mapc", c, tuple(goods), ("try",))
            if not anybad:
                return [(s, good(v))]
            if goods:
                fs = goods[0][0]
                for g, _ in goods[1:]:
                    fs = fs & g
            else:
                fs = EMPTY
            return [(s, alt([(fs, good(v)), (EMPTY, BAD)]))]
        if "Map<" in ty or "Set<" in ty:
            return [(s, mk("coll", c, "set" if "Set<" in ty else "map"))]
        if ty == "alloc::string::String":
            return [(s, call("concat", c))]
        return [(s, c)]

    def Itertools__join(self, s, f, av):
        return [(s, call("join", self.dv(s, av[0])))]

    # -------------------------------------------------- strings / formatting
    def fmt__format(self, s, f, av):
        v = self.dv(s, av[0])
        return [(s, call("fmt", v))]

    def Arguments__new(self, s, f, av):
        return [(s, mk("fargs", *[self.it.deep(s, a) for a in av]))]

    Arguments__from_str = Arguments__new

    def Argument__new_display(self, s, f, av):
        return [(s, self.dv(s, av[0]))]

    Argument__new_debug = Argument__new_display

    def StdError__generic_err(self, s, f, av):
        return [(s, mk("sym", "err"))]

    # -------------------------------------------------- cosmwasm
    def Addr__unchecked(self, s, f, av):
        return [(s, call("unchecked", self.dv(s, av[0])))]

    def Api__addr_validate(self, s, f, av):
        return [(s, call("addr_validate", self.dv(s, av[1])))]

    def any__seconds(self, s, f, av):
        return [(s, call("seconds", self.dv(s, av[0])))]

    def any__nanos(self, s, f, av):
        return [(s, call("nanos", self.dv(s, av[0])))]

    def coin__coin(self, s, f, av):
        return [(s, self.coin(self.dv(s, av[0]), self.dv(s, av[1])))]

    def Coin__new(self, s, f, av):
        return [(s, self.coin(self.dv(s, av[0]), self.dv(s, av[1])))]

    def coin(self, amount, denom):
        return st("cosmwasm_std::coin::Coin", "", (("denom", denom), ("amount", amount)))

    def coin__coins(self, s, f, av):
        return [(s, arr(self.coin(self.dv(s, av[0]), self.dv(s, av[1]))))]

    def serde__to_json_binary(self, s, f, av):
        return [(s, good(mk("json", self.it.deep(s, av[0]))))]

    serde__to_json_vec = serde__to_json_string = serde__to_binary = serde__to_vec = serde__to_json_binary

    def serde__from_json(self, s, f, av):
        v = self.dv(s, av[0])
        if v.op == "json":
            return [(s, good(v.a[0]))]
        return [(s, call("from_json", v))]

    serde__from_binary = serde__from_slice = serde__from_json

    def cosmos_msg__wasm_execute(self, s, f, av):
        m = st(
            "cosmwasm_std::results::cosmos_msg::WasmMsg", "Execute",
            (("contract_addr", self.dv(s, av[0])), ("msg", mk("json", self.it.deep(s, av[1]))), ("funds", self.dv(s, av[2]))),
        )
        return [(s, good(m))]

    def cosmos_msg__wasm_instantiate(self, s, f, av):
        m = st(
            "cosmwasm_std::results::cosmos_msg::WasmMsg", "Instantiate",
            (("admin", BAD), ("code_id", self.dv(s, av[0])), ("msg", mk("json", self.it.deep(s, av[1]))), ("funds", self.dv(s, av[2])), ("label", self.dv(s, av[3]))),
        )
        return [(s, good(m))]

    def Cw20ReceiveMsg__into_cosmos_msg(self, s, f, av):
        m = st(
            "cosmwasm_std::results::cosmos_msg::WasmMsg", "Execute",
            (("contract_addr", self.dv(s, av[1])), ("msg", mk("json", st("cw20::receiver::ReceiverExecuteMsg", "Receive", (("0", self.dv(s, av[0])),)))), ("funds", arr())),
        )
        return [(s, good(m))]

    def submsg(self, s, m, i, r, gas=BAD):
        return st(
            "cosmwasm_std::results::submessages::SubMsg", "",
            (("id", i), ("payload", arr()), ("msg", m), ("gas_limit", gas), ("reply_on", st("cosmwasm_std::results::submessages::ReplyOn", r, ()))),
        )

    def SubMsg__new(self, s, f, av):
        return [(s, self.submsg(s, self.it.deep(s, av[0]), ZERO, "Never"))]

    def SubMsg__reply_on_success(self, s, f, av):
        return [(s, self.submsg(s, self.it.deep(s, av[0]), self.dv(s, av[1]), "Success"))]

    def SubMsg__reply_on_error(self, s, f, av):
        return [(s, self.submsg(s, self.it.deep(s, av[0]), self.dv(s, av[1]), "Error"))]

    def SubMsg__reply_always(self, s, f, av):
        return [(s, self.submsg(s, self.it.deep(s, av[0]), self.dv(s, av[1]), "Always"))]

    def SubMsg__with_gas_limit(self, s, f, av):
        m = self.dv(s, av[0])
        return [(s, set_path(m, (("f", "gas_limit"),), good(self.dv(s, av[1]))))]

    RESP = "cosmwasm_std::results::response::Response"

    def newresp(self):
        return st(self.RESP, "", (("messages", arr()), ("attributes", arr()), ("events", arr()), ("data", BAD)))

    def Response__new(self, s, f, av):
        return [(s, self.newresp())]

    Response__default = Response__new

    def radd(self, s, r, x):
        r = self.dv(s, r)
        ms = fld(r, "messages")
        n = arr(*ms.a, x) if ms.op == "arr" and len(ms.a) < 24 else mk("app", ms, x)
        return [(s, set_path(r, (("f", "messages"),), n))]

    def rext(self, s, r, c):
        r = self.dv(s, r)
        ms = fld(r, "messages")
        if ms.op == "arr" and not ms.a:
            n = c
        elif ms.op == "arr" and c.op == "arr":
            n = arr(*ms.a, *c.a)
        else:
            n = mk("ext", ms, c)
        return [(s, set_path(r, (("f", "messages"),), n))]

    def Response__add_message(self, s, f, av):
        return self.radd(s, av[0], self.submsg(s, self.it.deep(s, av[1]), ZERO, "Never"))

    def Response__add_submessage(self, s, f, av):
        return self.radd(s, av[0], self.it.deep(s, av[1]))

    def Response__add_messages(self, s, f, av):
        return self.rext(s, av[0], self.dv(s, av[1]))

    def Response__add_submessages(self, s, f, av):
        return self.rext(s, av[0], self.dv(s, av[1]))

    def Response__add_attribute(self, s, f, av):
        return [(s, self.dv(s, av[0]))]

    Response__add_attributes = Response__add_event = Response__add_events = Response__add_attribute

    def Response__set_data(self, s, f, av):
        r = self.dv(s, av[0])
        return [(s, set_path(r, (("f", "data"),), good(self.dv(s, av[1]))))]

    def events__attr(self, s, f, av):
        return [(s, tup(self.dv(s, av[0]), self.dv(s, av[1])))]

    def QuerierWrapper__query_wasm_smart(self, s, f, av):
        return [(s, call("query", self.dv(s, av[1]), self.it.deep(s, av[2])))]

    def QuerierWrapper__query_wasm_raw(self, s, f, av):
        return [(s, call("rawquery", self.dv(s, av[1]), self.it.deep(s, av[2])))]

    def QuerierWrapper__query_balance(self, s, f, av):
        return [(s, call("balance", self.dv(s, av[1]), self.dv(s, av[2])))]

    def QuerierWrapper__query_supply(self, s, f, av):
        return [(s, call("supply", self.dv(s, av[1])))]

    def QuerierWrapper__query(self, s, f, av):
        m = self.it.deep(s, av[1])
        return [(s, call("query", mk("sym", "chain"), m))]

    # -------------------------------------------------- storage
    def item(self, kind, ns):
        return mk("item", kind, ns)

    def Item__new(self, s, f, av):
        return [(s, self.item("Item", av[0]))]

    def Map__new(self, s, f, av):
        return [(s, self.item("Map", av[0]))]

    def SnapshotMap__new(self, s, f, av):
        return [(s, mk("item", "SnapshotMap", av[0], av[1], av[2], av[3]))]

    def SnapshotItem__new(self, s, f, av):
        return [(s, mk("item", "SnapshotItem", av[0], av[1], av[2], av[3]))]

    Item__new_dyn = Item__new
    Map__new_dyn = Map__new

    def stor(self, s, item, key):
        v = s.store.get((item, key))
        if v is None:
            v = ALIAS.get(("load", nsof_item(item)))
            if callable(v):
                v = v(key)
        return v if v is not None else mk("may", item, key)

    def k(self, s, a):
        return self.it.deep(s, a)

    def ld(self, s, item, key):
        self.rd(s, item, key)
        return [(s, self.stor(s, item, key))]

    def rd(self, s, item, key):
        """remember which effects had happened when the entry was read"""
        self.it.reads.setdefault((item, key), set()).add(frozenset(self.it.fd(s.facts)))
        self.it.readin.setdefault((item, key), set()).add(self.within())

    def within(self):
        """the loops being evaluated whose rounds are told apart by nothing but their element"""
        return tuple(l["id"] for l in self.it.loops if "id" in l)

    def late(self, item, key, val):
        """an entry of each round which was read in the rounds of another loop: the rounds may share an entry"""
        here = self.within()
        if not here or not any(x.op == "elem" for x in walk(key)) or not contains(val, mk("may", item, key)):
            return False
        rs = self.it.readin.get((item, key), ())
        return bool(rs) and all(r and r[: len(here)] != here and here[: len(r)] != r for r in rs)

    def stale(self, s, item, key, val):
        """writes to another key of the same collection between the last read of this entry and a write computed from it"""
        if key is UNIT or (item, key) not in self.it.reads:
            return []
        ws = [w for w in self.it.effects if w["item"] is item and w["key"] is not key and eq(w["key"], key) is not FALSE]
        if not ws or not contains(val, mk("may", item, key)):
            return []
        now = self.it.fd(s.facts)
        rs = [r for r in self.it.reads[(item, key)] if r <= now]
        return [w["tok"] for w in ws if w["tok"] in now and not any(w["tok"] in r for r in rs)]

    def Item__load(self, s, f, av):
        return self.ld(s, self.dv(s, av[0]), UNIT)

    def Item__may_load(self, s, f, av):
        return [(s, good(self.stor(s, self.dv(s, av[0]), UNIT)))]

    def Item__exists(self, s, f, av):
        return [(s, isok(self.stor(s, self.dv(s, av[0]), UNIT)))]

    SnapshotItem__load, SnapshotItem__may_load = Item__load, Item__may_load

    def Map__load(self, s, f, av):
        return self.ld(s, self.dv(s, av[0]), self.k(s, av[2]))

    def Map__may_load(self, s, f, av):
        item, key = self.dv(s, av[0]), self.k(s, av[2])
        self.rd(s, item, key)
        return [(s, good(self.stor(s, item, key)))]

    def Map__has(self, s, f, av):
        return [(s, isok(self.stor(s, self.dv(s, av[0]), self.k(s, av[2]))))]

    SnapshotMap__load, SnapshotMap__may_load, SnapshotMap__has = Map__load, Map__may_load, Map__has

    def Map__key(self, s, f, av):
        return [(s, mk("path", self.dv(s, av[0]), self.k(s, av[1])))]

    def path_of(self, s, a):
        p = self.dv(s, a)
        return (p.a[0], p.a[1]) if p.op == "path" else (p, UNIT)

    def Path__load(self, s, f, av):
        return self.ld(s, *self.path_of(s, av[0]))

    def Path__may_load(self, s, f, av):
        self.rd(s, *self.path_of(s, av[0]))
        return [(s, good(self.stor(s, *self.path_of(s, av[0]))))]

    def Path__has(self, s, f, av):
        return [(s, isok(self.stor(s, *self.path_of(s, av[0]))))]

    def Path__save(self, s, f, av):
        return self.sv(s, *self.path_of(s, av[0]), self.it.deep(s, av[2]))

    def sv(self, s, item, key, val, **kw):
        old = self.stor(s, item, key)
        self.it.effect(s, "write", item=item, key=key, val=val, old=old, stale=self.stale(s, item, key, val) or self.late(item, key, val), **kw)
        s.setstore((item, key), good(val))
        return [(s, good(UNIT))]

    def Item__save(self, s, f, av):
        return self.sv(s, self.dv(s, av[0]), UNIT, self.it.deep(s, av[2]))

    def Map__save(self, s, f, av):
        return self.sv(s, self.dv(s, av[0]), self.k(s, av[2]), self.it.deep(s, av[3]))

    def SnapshotMap__save(self, s, f, av):
        return self.sv(s, self.dv(s, av[0]), self.k(s, av[2]), self.it.deep(s, av[3]), height=self.dv(s, av[4]))

    def SnapshotItem__save(self, s, f, av):
        return self.sv(s, self.dv(s, av[0]), UNIT, self.it.deep(s, av[2]), height=self.dv(s, av[3]))

    def rm(self, s, item, key, **kw):
        self.it.effect(s, "remove", item=item, key=key, old=self.stor(s, item, key), **kw)
        s.setstore((item, key), BAD)
        return [(s, good(UNIT))]

    def Item__remove(self, s, f, av):
        r = self.rm(s, self.dv(s, av[0]), UNIT)
        return [(r[0][0], UNIT)]

    def Map__remove(self, s, f, av):
        r = self.rm(s, self.dv(s, av[0]), self.k(s, av[2]))
        return [(r[0][0], UNIT)]

    def SnapshotMap__remove(self, s, f, av):
        return self.rm(s, self.dv(s, av[0]), self.k(s, av[2]), height=self.dv(s, av[3]))

    def Map__clear(self, s, f, av):
        self.it.effect(s, "clear", item=self.dv(s, av[0]), key=UNIT)
        return [(s, UNIT)]

    Deque__push_back = None

    def upd(self, s, item, key, fn, opt, **kw):
        self.rd(s, item, key)
        old = self.stor(s, item, key)
        out = []
        if opt:
            rs = self.it.apply(s, fn, [old])
        else:
            k = isok(old)
            if not self.it.assume(s, k):
                return [(s, BAD)]
            rs = self.it.apply(s, fn, [ok(old)])
        for n, v in rs:
            v = self.it.deep(n, v)
            for g, x in alts(v):
                if x.op == "bad":
                    out.append((n, BAD))
                    continue
                m = n.copy()
                if not all(self.it.addfact(m, h) for h in g):
                    continue
                if x.op != "good":
                    b = m.copy()
                    if not self.it.assume(m, isok(x)):
                        continue
                    out.append((b, BAD))
                nv = ok(x)
                self.sv(m, item, key, nv, **kw)
                out.append((m, good(nv)))
        # keep good and bad apart
        gs = [o for o in out if o[1].op == "good"]
        bs = [o for o in out if o[1].op == "bad"]
        return self.fin(gs) + self.fin(bs)

    def Item__update(self, s, f, av):
        return self.upd(s, self.dv(s, av[0]), UNIT, av[2], False)

    def Map__update(self, s, f, av):
        return self.upd(s, self.dv(s, av[0]), self.k(s, av[2]), av[3], True)

    def SnapshotMap__update(self, s, f, av):
        return self.upd(s, self.dv(s, av[0]), self.k(s, av[2]), av[4], True, height=self.dv(s, av[3]))

    def Map__range(self, s, f, av):
        i = self.dv(s, av[0])
        return [(s, self.rng(i, UNIT, [self.it.deep(s, a) for a in av[2:]]))]

    SnapshotMap__range = Map__range

    def Map__range_raw(self, s, f, av):
        return self.Map__range(s, f, av)

    def Map__keys(self, s, f, av):
        i = self.dv(s, av[0])
        return [(s, self.keysof(i, UNIT, [self.it.deep(s, a) for a in av[2:]]))]

    SnapshotMap__keys = Map__keys_raw = Map__keys

    def Map__prefix(self, s, f, av):
        return [(s, mk("prefix", self.dv(s, av[0]), self.k(s, av[1])))]

    Map__sub_prefix = Map__prefix

    def Map__no_prefix(self, s, f, av):
        return [(s, self.dv(s, av[0]))]

    def Prefix__range(self, s, f, av):
        p = self.dv(s, av[0])
        i, k = (p.a[0], p.a[1]) if p.op == "prefix" else (p, UNIT)
        return [(s, self.rng(i, k, [self.it.deep(s, a) for a in av[2:]]))]

    Prefix__range_raw = Prefix__range

    def Prefix__keys(self, s, f, av):
        p = self.dv(s, av[0])
        i, k = (p.a[0], p.a[1]) if p.op == "prefix" else (p, UNIT)
        return [(s, self.keysof(i, k, [self.it.deep(s, a) for a in av[2:]]))]

    Prefix__keys_raw = Prefix__keys

    def hist(self, s, f, av):
        i = self.dv(s, av[0])
        a = [self.it.deep(s, x) for x in av[2:]]
        return [(s, call("at_height", i, *a))]

    SnapshotMap__may_load_at_height = SnapshotItem__may_load_at_height = hist

    def Item__query(self, s, f, av):
        return [(s, call("rawquery", self.dv(s, av[2]), self.dv(s, av[0])))]

    def Map__query(self, s, f, av):
        return [(s, call("rawquery", self.dv(s, av[2]), self.dv(s, av[0]), self.k(s, av[3])))]


Models.any__Bound = None
