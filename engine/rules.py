"""What the property checks are written with: runs of entry points, their committed effects and emitted messages."""
import functools

import entry
from absint import Bound, Prog
from facts import *
from terms import *

INFO = mk("sym", "info")
ENV = mk("sym", "env")
SENDER = mk("fld", INFO, "sender")
FUNDS = mk("fld", INFO, "funds")
SELF = mk("fld", mk("fld", ENV, "contract"), "address")
TIME = mk("fld", mk("fld", ENV, "block"), "time")
NOW = call("seconds", TIME)
HEIGHT = mk("fld", mk("fld", ENV, "block"), "height")


def F(t, *names):
    for n in names:
        t = fld(t, n)
    return t


def may(ns, key=UNIT, kind=None):
    return mk("may", mk("item", kind or ("Item" if key is UNIT else "Map"), STR(ns)), key)


def ld(ns, key=UNIT):
    return ok(may(ns, key))


def msg(*names):
    return F(mk("sym", "msg"), *names)


def nsof(item):
    """storage namespace of an item term"""
    if item.op == "item" and item.a[1].op == "str":
        return item.a[1].a[0]
    return None


def isload(t, ns):
    """t is the stored value under ns (of any key)"""
    return t.op == "ok" and t.a[0].op == "may" and nsof(t.a[0].a[0]) == ns


def loads(t):
    """namespaces read to compute t"""
    return {nsof(x.a[0]) for x in walk_deep(t) if x.op == "may"}


def strip(t):
    """address-like terms without validation/unchecked wrappers"""
    while True:
        if t.op == "ok" and t.a[0].op == "call" and t.a[0].a[0] == "addr_validate":
            t = t.a[0].a[1]
        elif t.op == "call" and t.a[0] == "unchecked":
            t = t.a[1]
        else:
            return t


def is_validated(t):
    return t.op == "ok" and t.a[0].op == "call" and t.a[0].a[0] == "addr_validate"


def leaves(t, guard=EMPTY):
    """the alternatives a value can be, nested ones included: [(facts, term)]"""
    if t.op == "alt":
        out = []
        for g, x in t.a[0]:
            out += leaves(x, guard | g)
        return out
    return [(guard, t)]


MSGW = {"Wasm", "Bank", "Stargate", "Any", "Ibc", "Custom", "Staking", "Gov", "Distribution"}


class Msg:
    """one message kind the entry point can emit"""

    def __init__(self, run, facts, sub, m):
        self.run = run
        self.facts = facts
        self.sub = sub
        self.m = m

    @property
    def kind(self):
        m = self.m
        if m.op == "st":
            n = m.a[0].rsplit("::", 1)[-1]
            return f"{n}::{m.a[1]}" if m.a[1] else n
        return m.op

    def f(self, *n):
        return F(self.m, *n)

    def exec(self):
        """(contract, decoded message, funds) of a Wasm execute"""
        if self.kind == "WasmMsg::Execute":
            b = self.f("msg")
            return strip(self.f("contract_addr")), (b.a[0] if b.op == "json" else b), self.f("funds")
        return None

    def variant(self):
        e = self.exec()
        if e and e[1].op == "st":
            return e[1].a[0].rsplit("::", 1)[-1], e[1].a[1]
        return None

    def __repr__(self):
        return f"{self.kind} {show(self.m, 6)}"


def unwrap_msg(t):
    """CosmosMsg -> inner"""
    while t.op == "st" and t.a[0].endswith("CosmosMsg") and t.a[1] in MSGW and any(n == "0" for n, _ in t.a[2]):
        t = fld(t, "0")
    if t.op == "st" and t.a[0].endswith("CosmosMsg") and t.a[1] in ("Stargate", "Any"):
        v = fld(t, "value")
        if v.op == "st" and v.a[1] == "Any":
            v = fld(v, "value")
        if v.op == "call" and v.a[0].endswith("encode_to_vec") and v.a[1].op == "st":
            return v.a[1]
    return t


def coll_items(c):
    return iterinfo(c)


def ty_mint(t):
    return t


class View:
    """one entry point on one message variant"""

    def __init__(self, ctx, crate, ename, variant, run):
        self.ctx, self.crate, self.entry, self.variant, self.run = ctx, crate, ename, variant, run
        self.name = f"{crate}/{ename}" + (f".{variant}" if variant else "")
        self._eff = None
        self._msg = None

    @property
    def oks(self):
        return self.run.oks

    def where(self, e=None):
        if e is not None:
            fr = e["site"][-1]
            return f"{fr[1]}:{fr[2]} ({fr[0]})"
        fn = self.run.fn
        return f"{fn['file']}:{fn['line']} ({fn['name']})"

    def effects(self, ns=None, kinds=None):
        """committed effects with the facts under which they are committed: [(effect, facts)]"""
        if self._eff is None:
            self._eff = []
            for e in self.run.effects:
                fss = []
                for f, _, _ in self.oks:
                    c = given(f, [e["tok"]])
                    if c is not None:
                        c = refine(c | e["facts"])
                    if c is not None:
                        fss.append(c)
                if fss:
                    self._eff.append((e, fss))
        out = []
        for e, fss in self._eff:
            if ns is not None and nsof(e["item"]) != ns:
                continue
            if kinds is not None and e["kind"] not in kinds:
                continue
            for f in fss:
                out.append((e, f))
        return out

    def msgs(self):
        """messages of the response: [Msg]"""
        if self.entry == "query":
            return []
        if self._msg is None:
            self._msg = []
            for f, v, _ in self.oks:
                for g, resp in leaves(v):
                    fs = refine(f | g)
                    if fs is None:
                        continue
                    ms = fld(resp, "messages")
                    for h, sub in iterinfo(ms):
                        for h2, sm in leaves(sub):
                            mt = unwrap_msg(fld(sm, "msg")) if is_sub(sm) else unwrap_msg(sm)
                            for h3, m in leaves(mt):
                                m = unwrap_msg(m)
                                for h4, m2 in leaves(m):
                                    fs2 = refine(fs | h | h2 | h3 | h4)
                                    if fs2 is None:
                                        continue
                                    self._msg.append(Msg(self, fs2, sm if is_sub(sm) else None, unwrap_msg(m2)))
        return self._msg


def is_sub(t):
    return t.op == "st" and t.a[0].endswith("SubMsg") or t.op == "upd"


class Ctx:
    def __init__(self):
        import extract

        self.dir = extract.extract()
        self.prog = Prog(self.dir)
        self.ents = entry.find_entries(self.prog)
        self.cache = {}
        self.fns = set()
        self.nblocks = 0

    def fn(self, crate, ename):
        return self.ents[crate][ename]

    def has(self, crate, ename):
        return ename in self.ents.get(crate, {})

    def variants(self, crate, ename):
        fn = self.fn(crate, ename)
        ty = fn["locals"][fn["argc"]]
        a = entry.variants(self.prog, ty)
        if a is None or entry.param_kind(ty) != "msg":
            return [None]
        return [v for v, _ in a["variants"]]

    def view(self, crate, ename, variant=None, **kw):
        k = (crate, ename, variant, tuple(sorted(kw.items(), key=str)))
        v = self.cache.get(k)
        if v is None:
            fn = self.fn(crate, ename)
            ty = fn["locals"][fn["argc"]]
            var = None
            if variant is not None:
                a = entry.variants(self.prog, ty)
                var = next((a["name"], x, fs) for x, fs in a["variants"] if x == variant)
            r = entry.run_entry(self.prog, fn, var, **kw)
            self.fns |= r.it.fns_seen
            self.nblocks += r.it.stats["blocks"]
            v = self.cache[k] = View(self, crate, ename, variant, r)
        return v

    def views(self, crate, ename, **kw):
        return [self.view(crate, ename, v, **kw) for v in self.variants(crate, ename)]

    def all(self, enames=("instantiate", "execute", "reply", "migrate", "sudo")):
        for c in sorted(self.ents):
            for e in enames:
                if self.has(c, e):
                    yield from self.views(c, e)


# ---------------------------------------------------------------- shared rule vocabulary
def eqs(x):
    """literal `sender == x`"""
    return lambda l: l is eq(SENDER, x)


def is_eq(a, b):
    t = eq(a, b)
    return lambda l: l is t


def neqs(a, b):
    t = neg(eq(a, b))
    return lambda l: l is t


def member(c, x):
    """literal `x is one of c`"""

    def p(l):
        if l.op == "contains" and l.a[0] is c and l.a[1] is x:
            return True
        return l.op == "any" and l.a[0] is c and l.a[1] is eq(x, elem(c))

    return p


def memberof(c, pred):
    """literal `some x with pred(x) is one of c`"""

    def p(l):
        if l.op == "contains" and l.a[0] is c:
            return pred(l.a[1])
        if l.op == "any" and l.a[0] is c and l.a[1].op == "eq":
            a, b = l.a[1].a
            return a is elem(c) and pred(b) or b is elem(c) and pred(a)
        return False

    return p


def either(*ps):
    return lambda l: any(p(l) for p in ps)


def lit(t):
    return lambda l: l is t


def cdiff(a, b):
    """a - b when it is a constant, else None"""
    if a is b:
        return 0
    d = lin_sub(a, b)
    return d.a[0] if d.op == "int" else None


def le_lit(a, b, strict=False):
    """predicate: the literal implies a <= b (a < b when strict)"""
    D0 = lin_sub(a, b)

    def p(l):
        if l.op not in ("le", "lt", "eq"):
            return False
        x, y = l.a
        for u, w in ((x, y),) if l.op != "eq" else ((x, y), (y, x)):
            # u <= w  (or <); want a <= b
            d = cdiff(D0, lin_sub(u, w))
            if d is None:
                continue
            if l.op == "lt" and (d <= 0):
                return True
            if l.op in ("le", "eq") and (d < 0 or d == 0 and not strict):
                return True
        return False

    return p


def simp(fs, t, minmax=False):
    """t with the alternatives which are impossible under fs removed (and each min and max whose order is known)"""
    for _ in range(8):
        m = {}
        for x in walk(t):
            if x.op == "alt":
                live = [(g, u) for g, u in x.a[0] if refine(fs | g) is not None]
                if len(live) < len(x.a[0]):
                    m[x] = alt(live) if len(live) > 1 else (live[0][1] if live else x)
                    if m[x] is x:
                        del m[x]
            elif minmax and x.op in ("min", "max") and len(x.a) == 2:
                a, b = x.a
                small = a if holds(fs, le_lit(a, b)) else b if holds(fs, le_lit(b, a)) else None
                if small is not None:
                    m[x] = small if x.op == "min" else b if small is a else a
        if not m:
            return t
        t = subst(t, m)
    return t


def settle(fs, base=None):
    """fs with every literal simplified under fs"""
    base = fs if base is None else base
    out = set()
    for l in fs:
        if l.op == "or":
            ds = []
            for d in l.a[0]:
                h = refine(base | d)
                if h is not None:
                    ds.append(settle(d, h))
            out.add(mk("or", frozenset(ds)) if len(ds) > 1 else l)
            if len(ds) == 1:
                out |= ds[0]
        elif any(x.op == "alt" for x in walk(l)):
            out.add(simp(base, l))
        else:
            out.add(l)
    return frozenset(out)


def hle(fs, a, b, strict=False):
    """a <= b on every path"""
    if a.op == "int" and b.op == "int":
        return a.a[0] < b.a[0] or a.a[0] == b.a[0] and not strict
    if a is b:
        return not strict
    if holds(fs, le_lit(a, b, strict)):
        return True
    if any(x.op == "alt" for l in alllits(fs) if l.op in ("le", "lt", "eq") for x in walk(l)):
        return holds(settle(fs), le_lit(simp(fs, a), simp(fs, b), strict))
    return False


def keeps(t, n, base, seen=()):
    """field n of t is field n of base, whatever path produced t"""
    if t is base or t in seen:
        return True
    if t.op == "alt":
        return all(keeps(x, n, base, seen) for _, x in t.a[0])
    if t.op == "upd":
        k = t.a[1]
        if k == ("f", n):
            return t.a[2] is F(base, n) or same(t.a[2], F(base, n))
        if k[0] == "f":
            return keeps(t.a[0], n, base, seen)
        return False
    if t.op == "phi" and t in PHI:
        return all(keeps(x, n, base, seen + (t,)) for x in PHI[t])
    return F(t, n) is F(base, n) or same(F(t, n), F(base, n))


def same(t, base, seen=()):
    """t is base whatever path produced it"""
    if t is base or t in seen:
        return True
    if t.op == "alt":
        return all(same(x, base, seen) for _, x in t.a[0])
    if t.op == "phi" and t in PHI:
        return all(same(x, base, seen + (t,)) for x in PHI[t])
    if t.op == "st":
        # rebuilt field by field
        return all(F(base, n) is v or same(v, F(base, n), seen) for n, v in t.a[2]) and len(t.a[2]) > 0
    if t.op == "upd" and t.a[1][0] == "f":
        return same(t.a[0], base, seen) and same(t.a[2], F(base, t.a[1][1]), seen)
    if t.op == "fld":
        # a part of something carried through a loop
        path, x = [], t
        while x.op == "fld":
            path.append(x.a[1])
            x = x.a[0]
        if x.op == "phi" and x in PHI:
            return all(same(F(y, *reversed(path)), base, seen + (t,)) for y in PHI[x])
    return False


def changed(t, base, names):
    """the fields among names which t may have different from base"""
    return [n for n in names if not keeps(t, n, base)]


def fields_of(prog, ty):
    a = prog.adts.get(ty)
    if a is None or a["enum"]:
        return None
    return [n for n, _ in a["variants"][0][1]]


def adtname(t):
    if t.op == "st":
        return t.a[0]
    if t.op == "upd":
        return adtname(t.a[0])
    if t.op == "alt":
        for _, x in t.a[0]:
            n = adtname(x)
            if n:
                return n
    if t.op == "phi" and t in PHI:
        return adtname(PHI[t][0])
    return None


def cases(fs, *ts):
    """the combinations of alternatives the terms can take under fs: [(facts, terms)]"""
    out = [(fs, [])]
    for t in ts:
        n = []
        for f, acc in out:
            for g, x in leaves(t):
                h = refine(f | g)
                if h is not None:
                    n.append((h, acc + [x]))
        out = n
    return out


def hoisted(fs, t, fuel=64):
    """like cases, with the alternatives anywhere inside the term decided: [(facts, term)]"""
    work, out = [(fs, simp(fs, t))], []
    while work:
        h, x = work.pop()
        alt_ = next((y for y in walk(x) if y.op == "alt"), None)
        if alt_ is None or len(out) + len(work) > fuel:
            out.append((h, x))
            continue
        for g, y in alt_.a[0]:
            k = refine(h | g)
            if k is not None:
                z = subst(x, {alt_: y})
                if z is x:
                    out.append((k, x))
                else:
                    work.append((k, z))
    return out


class Pay:
    """one transfer a message makes: kind in native/cw20/cw20from/cw20send/mint/burn/..., asset = denom or token address"""

    def __init__(self, m, facts, kind, asset, to, amount, frm=None, extra=None):
        self.m, self.facts, self.kind, self.asset, self.to, self.amount, self.frm, self.extra = m, facts, kind, asset, to, amount, frm, extra

    def __repr__(self):
        return f"{self.kind} {show(self.asset, 4)} -> {show(self.to, 4) if self.to is not None else None} : {show(self.amount, 5)}"


CW20 = {"Transfer", "TransferFrom", "Send", "SendFrom", "Burn", "BurnFrom", "Mint", "IncreaseAllowance"}


def pays(m):
    """the transfers of one message (alternatives enumerated)"""
    k = m.kind
    out = []
    if k == "BankMsg::Send":
        for h, c in iterinfo(m.f("amount")):
            fs = refine(m.facts | h)
            if fs is not None:
                out.append(Pay(m, fs, "native", F(c, "denom"), m.f("to_address"), F(c, "amount")))
    elif k == "WasmMsg::Execute":
        con, x, funds = m.exec()
        for h, c in iterinfo(funds):
            fs = refine(m.facts | h)
            if fs is not None:
                out.append(Pay(m, fs, "funds", F(c, "denom"), con, F(c, "amount"), extra=x))
        if x.op == "st" and "Cw20ExecuteMsg" in x.a[0]:
            v = x.a[1]
            if v == "Transfer":
                out.append(Pay(m, m.facts, "cw20", con, F(x, "recipient"), F(x, "amount")))
            elif v == "TransferFrom":
                out.append(Pay(m, m.facts, "cw20from", con, F(x, "recipient"), F(x, "amount"), F(x, "owner")))
            elif v in ("Send", "SendFrom"):
                out.append(Pay(m, m.facts, "cw20send", con, F(x, "contract"), F(x, "amount"), extra=F(x, "msg")))
            elif v == "Burn":
                out.append(Pay(m, m.facts, "cw20burn", con, None, F(x, "amount")))
            elif v == "Mint":
                out.append(Pay(m, m.facts, "cw20mint", con, F(x, "recipient"), F(x, "amount")))
            else:
                out.append(Pay(m, m.facts, "cw20" + v, con, None, None))
        elif x.op != "st" and not out:
            out.append(Pay(m, m.facts, "wasm?", con, None, None))
    elif k in ("MsgMint", "MsgBurn"):
        a = m.f("amount")
        c = ok(a)
        out.append(Pay(m, m.facts, "mint" if k == "MsgMint" else "burn", F(c, "denom"), m.f("mint_to_address" if k == "MsgMint" else "burn_from_address"), F(c, "amount")))
    return out


def allpays(v):
    out = []
    for m in v.msgs():
        out += pays(m)
    return out


def nmsgs(v):
    """number of messages of each successful result (None when not a fixed number)"""
    out = set()
    for f, val, _ in v.oks:
        for g, resp in leaves(val):
            if refine(f | g) is None:
                continue
            c = fld(resp, "messages")
            for _, x in leaves(c):
                out.add(len(x.a) if x.op == "arr" else None)
    return out


def opt_or(f, t, opt, dflt, validated=False):
    """t is the option's value when given, otherwise dflt (on the paths f)"""
    for fs, (x,) in cases(f, t):
        given_ = plus(fs, isok(opt))
        not_ = plus(fs, neg(isok(opt)))
        if strip(x) is strip(ok(opt)) and (not validated or is_validated(x)):
            if not_ is not None:
                return False
        elif strip(x) is strip(dflt):
            if given_ is not None:
                return False
        else:
            return False
    return True


def lists(c, fs):
    """the concrete message lists a collection can be: [(facts, [term] or None)]"""
    if c.op == "arr":
        return [(fs, list(c.a))]
    if c.op == "alt":
        out = []
        for g, x in c.a[0]:
            h = refine(fs | g)
            if h is not None:
                out += lists(x, h)
        return out
    if c.op == "ext":
        out = []
        for h, a in lists(c.a[0], fs):
            for h2, b in lists(c.a[1], h):
                out.append((h2, a + b if a is not None and b is not None else None))
        return out
    if c.op == "good":
        return [(fs, [c.a[0]])]
    if c.op == "bad":
        return [(fs, [])]
    if c.op == "app" and len(c.a) < 3:
        return [(h, a + [c.a[1]] if a is not None else None) for h, a in lists(c.a[0], fs)]
    if c.op == "coll":
        return lists(c.a[0], fs)
    return [(fs, None)]


def outcomes(v, *assume):
    """what a successful call sends under the assumptions: [(facts, [Msg] or None when not a fixed list)]"""
    return [x for f, val, _ in v.oks for x in sends(v, f, val, *assume)]


def sends(v, f, val, *assume):
    """the same for one way of succeeding"""
    out = []
    for g, resp in leaves(val):
        fs = refine(f | g)
        if fs is None:
            continue
        fs = plus(fs, *assume)
        if fs is None:
            continue
        for h, ms in lists(fld(resp, "messages"), fs):
            if ms is None:
                out.append((h, None))
                continue
            combos = [(h, [])]
            for sub in ms:
                n = []
                for h1, acc in combos:
                    for g1, sm in leaves(sub):
                        mt = unwrap_msg(fld(sm, "msg")) if is_sub(sm) else unwrap_msg(sm)
                        for g2, m in leaves(mt):
                            for g3, m2 in leaves(unwrap_msg(m)):
                                h2 = refine(h1 | g1 | g2 | g3)
                                if h2 is not None:
                                    n.append((h2, acc + [Msg(v, h2, sm if is_sub(sm) else None, unwrap_msg(m2))]))
                combos = n
            for h2, acc in combos:
                for m in acc:
                    m.facts = h2
                out.append((h2, acc))
    return out


def values(fs, t):
    """the alternatives of a term which are possible under fs"""
    return [x for _, (x,) in cases(fs, t)]


def tmin(a, b):
    """the term of min(a, b)"""
    if b.id < a.id:
        a, b = b, a
    return mk("min", a, b)


def qcall(t):
    """(contract, message) of a successful smart query's result"""
    if t.op == "ok" and t.a[0].op == "call" and t.a[0].a[0] == "query":
        return strip(t.a[0].a[1]), t.a[0].a[2]
    return None


def isquery(t, addr, name, **fs):
    """t is the answer of addr to the query `name` with the given fields"""
    q = qcall(t)
    return q is not None and q[0] is strip(addr) and q[1].op == "st" and q[1].a[1] == name and all(F(q[1], k) is x for k, x in fs.items())


def qfield(t, fld_, addr, name, **fs):
    """t is field fld_ of the answer of addr to the query `name`"""
    return t.op == "fld" and t.a[1] == fld_ and isquery(t.a[0], addr, name, **fs)


def isbalance(fs, t, who, info):
    """t is the balance of `who` in the asset `info` on the paths fs (zero when a token does not answer)"""
    den, con = pay(info, "NativeToken", "denom"), pay(info, "Token", "contract_addr")
    got = 0
    who = strip(who)
    for h, (x,) in cases(fs, t):
        x = simp(h, x)
        q = x.a[0] if x.op == "fld" else None
        c = q.a[0] if q is not None and q.op == "ok" else None
        if c is not None and c.op == "call" and c.a[0] == "balance" and x.a[1] == "amount":
            if strip(c.a[1]) is not simp(h, who) or c.a[2] is not den or plus(h, is_variant(info, "Token")) is not None:
                return False
        elif q is not None and qfield(x, "balance", con, "Balance") and strip(F(qcall(q)[1], "address")) is simp(h, who):
            if plus(h, is_variant(info, "NativeToken")) is not None:
                return False
        elif x.op == "int" and x.a[0] == 0:
            if plus(h, is_variant(info, "NativeToken")) is not None or holds(h, lambda l: l.op == "isok" and l.a[0].op == "call" and l.a[0].a[0] == "query" and strip(l.a[0].a[1]) is con):
                return False
            continue
        else:
            return False
        got += 1
    return got > 0


def asset_eq(a, b):
    """literal implying that two asset descriptions are equal"""
    pairs = {eq(a, b)} | {eq(pay(a, v, n), pay(b, v, n)) for v, n in (("NativeToken", "denom"), ("Token", "contract_addr"))}
    return lambda l: l in pairs


def asset_ne(a, b):
    pairs = {neg(eq(a, b))} | {neg(eq(pay(a, v, n), pay(b, v, n))) for v, n in (("NativeToken", "denom"), ("Token", "contract_addr"))}
    kinds = [(is_variant(a, x), is_variant(b, y)) for x, y in (("NativeToken", "Token"), ("Token", "NativeToken"))]
    return lambda l: l in pairs


def covers(c, src, seen=()):
    """the collection c has an element for each element of src, in order"""
    if c is src:
        return True
    if c.op in ("coll", "enum"):
        return covers(c.a[0], src, seen)
    if c.op == "mapc":
        return "filter" not in c.a[2] and "flat" not in c.a[2] and covers(c.a[0], src, seen)
    if c.op == "alt":
        return all(covers(x, src, seen) for _, x in c.a[0])
    b, path = c, []
    while b.op == "fld":
        path.append(b.a[1])
        b = b.a[0]
    if b.op == "phi" and b in PHI and b.a[-1] != "cut":
        i, s = PHI[b]
        for n in reversed(path):
            i, s = fld(i, n), fld(s, n)
        return i.op == "arr" and not i.a and grows(s, c) and any(contains(x, elem(src)) for _, x in iterinfo(c))
    return False


def grows(s, c):
    """a loop step which appends to c on every path"""
    if s.op == "alt":
        return all(grows(x, c) for _, x in s.a[0])
    return s.op == "app" and s.a[0] is c
