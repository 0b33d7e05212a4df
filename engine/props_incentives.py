"""Incentives: positions, reward accrual, schedules, emissions, orphaned rewards, lists, settings."""
from itertools import product

from check import prop
from rules import *
from rat import req, ge0
from props_pair import info_of, sym, ends, equals, tup, split
from props_factory import js, value

INC = "astroport_incentives"
RI, RT = "astroport::incentives::RewardInfo", "astroport::incentives::RewardType"
CFG = ld("config")
CONFIG = "astroport::incentives::Config"
LPA = mk("atom", "lp")
HOOK = ok(call("from_json", msg("0", "msg")))
EXCL, INCL = "exclusive", "inclusive"


class Rew:
    """a reward of a pool"""

    def __init__(self, n, ext, kind="N", sched=()):
        self.n, self.ext, self.atom = n, ext, mk("atom", f"reward.{n}")
        self.info = info_of(kind, self.atom)
        self.kind, self.sched = kind, tuple(sched)  # sched: names of later periods
        for x in ("rps", "index", "orphaned", "next"):
            setattr(self, x, sym(f"{n}.{x}"))
        self.user = sym(f"{n}.user")

    @property
    def type(self):
        return st(RT, "Ext", (("info", self.info), ("next_update_ts", self.next))) if self.ext else st(RT, "Int", (("0", self.info),))

    @property
    def term(self):
        return st(RI, "", (("reward", self.type), ("rps", self.rps), ("index", self.index), ("orphaned", self.orphaned)))

    def period(self, s):
        return sym(f"{self.n}.{s}.end"), sym(f"{self.n}.{s}.rps")


def begins(x, rest):
    """whether an ascending range without an end starts at x ("at"), right after x ("after") or elsewhere (None)"""
    if len(rest) != 3:
        return None
    lo, hi, order = rest
    if hi.op != "bad" or order.op != "st" or order.a[1] != "Ascending" or lo.op != "good":
        return None
    b = lo.a[0]
    while b.op == "good":
        b = b.a[0]
    if b.op == "st" and len(b.a[2]) == 1:
        n, y = b.a[1].lower(), b.a[2][0][1]
    elif b.op == "call" and isinstance(b.a[0], str) and len(b.a) == 2:
        n, y = b.a[0].rsplit("::", 1)[-1].lower(), b.a[1]
    else:
        return None
    if n.startswith("exclusive"):
        return "after" if y is x else None
    if not n.startswith("inclusive"):
        return None
    return "at" if y is x else "after" if y is add(x, INT(1)) else None


def bare(info):
    """what an asset info names"""
    return strip(info.a[2][0][1]) if info.op == "st" and len(info.a[2]) == 1 else info


class Farm:
    """a pool with the given rewards seen through one entry point"""

    def __init__(self, ctx, how, rewards, indexes=True, done=(), before=(), assume=(), absent=(), to=None, lp=None):
        """lp: the LP token (ClaimRewards only); to: how a recipient is named (None: the depositor's own position); done: rewards which ended after the last claim, one list per time; before: those removed right after the last claim"""
        self.again = lambda: Farm(ctx, how, rewards, indexes, done, before, assume, absent, to, lp)
        self.ctx, self.how, self.rewards, self.done, self.before = ctx, how, rewards, tuple(done), tuple(before)
        self.indexes, self.absent = indexes, absent
        entry_, kind = how.split(".")
        self.kind = kind
        coin, named = ok(call("one_coin", INFO)), lp or LPA
        self.lp = info_of(kind, F(coin, "denom") if entry_ == "Deposit" else named)
        al, asm = [], []
        self.entry, self.variant = "execute", entry_
        if entry_ == "Deposit":
            self.amt, self.staker = F(coin, "amount"), SENDER
            asm.append(isok(msg("recipient")) if to else neg(isok(msg("recipient"))))
            if to:
                self.staker = ok(call("addr_validate", ok(msg("recipient"))))
        elif entry_ == "Receive":
            self.amt, self.staker = msg("0", "amount"), call("unchecked", msg("0", "sender"))
            al.append(((INFO, "sender"), LPA))
            who = pay(HOOK, "Deposit", "recipient")
            if to == "for":
                asm.append(is_variant(HOOK, "DepositFor"))
                self.staker = ok(call("addr_validate", pay(HOOK, "DepositFor", "0")))
            elif to:
                asm += [is_variant(HOOK, "Deposit"), isok(who)]
                self.staker = ok(call("addr_validate", ok(who)))
            else:
                asm += [is_variant(HOOK, "Deposit"), neg(isok(who))]
        else:
            x = (sym("msg"), "lp_token")
            if entry_ == "ClaimRewards":
                al.append(((sym("msg"), "lp_tokens"), arr(named)))
            else:
                al.append(((sym("msg"), "lp_token"), LPA))
            v = call("addr_validate", named)
            asm.append(isok(v) if kind == "T" else neg(isok(v)))
            self.staker = SENDER
            if entry_ in ("PendingRewards", "RewardInfo"):
                self.entry, self.staker = "query", ok(call("addr_validate", msg("user")))
        self.alias, self.assume = tuple(al), tuple(asm)
        v = ctx.view(INC, self.entry, self.variant, alias=self.alias, assume=self.assume)
        found = [x for t in seen(v) for x in walk_deep(t) if x.op == "may"]
        self.pkeys = {x.a[1] for x in found if nsof(x.a[0]) == "pools"}
        self.ukeys = {x.a[1] for x in found if nsof(x.a[0]) == "user_info"}
        self.ok = len(self.pkeys) == 1 and len(self.ukeys) <= 1 and bare(next(iter(self.pkeys))) is bare(self.lp)
        if not self.ok:
            return
        self.pool = ld("pools", next(iter(self.pkeys)))
        pool, pos = self.pool.a[0], None
        al += [((self.pool, "rewards"), arr(*[x.term for x in rewards if x.case != "left"])), ((self.pool, "rewards_to_remove"), arr())]
        asm.append(neg(isok(pool)) if "pool" in absent else isok(pool))
        self.had, self.staked, self.total, self.last = INT(0), NOW, INT(0), INT(0)
        if self.ukeys:
            self.pos = ld("user_info", next(iter(self.ukeys)))
            al.append(((self.pos, "last_rewards_index"), arr(*[tup(x.type, x.user) for x in rewards if indexes])))
            asm.append(neg(isok(self.pos.a[0])) if "pos" in absent else isok(self.pos.a[0]))
            if "pos" not in absent:
                self.had, self.staked = F(self.pos, "amount"), F(self.pos, "last_claim_time")
        if "pool" not in absent:
            self.total, self.last = F(self.pool, "total_lp"), F(self.pool, "last_update_ts")
        al.append((("range", "reward_schedules"), self.periods))
        al.append((("range", "fin_rew_inds"), self.finished))
        al.append((("load", "fin_rew_inds"), self.finished_at))
        self.alias = tuple(al)
        asm += list(assume(self) if callable(assume) else assume)
        self.assume = tuple(asm)
        self.v = ctx.view(INC, self.entry, self.variant, alias=self.alias, assume=self.assume)

    def periods(self, key, rest):
        for x in self.rewards:
            if x.ext and key.op == "st" and len(key.a[2]) == 2 and bare(F(key, "0")) is bare(self.lp) and F(key, "1") is x.info:
                at = begins(x.next, rest)
                if at == "after":
                    return arr(*[good(tup(*x.period(s))) for s in x.sched])

    def indexlist(self, tag, xs):
        return arr(*[tup(x.info, sym(f"{tag}.{x.n}")) for x in xs])

    def finished(self, key, rest):
        if bare(key) is not bare(self.lp):
            return None
        at = begins(self.staked, rest)
        if at is None:
            return None
        out = [good(tup(sym(f"done{i}.ts"), self.indexlist(f"done{i}", xs))) for i, xs in enumerate(self.done)]
        if at == "at" and self.before:
            out.insert(0, good(tup(self.staked, self.indexlist("before", self.before))))
        return arr(*out)

    def finished_at(self, key):
        """what is stored for the time of the last claim"""
        if key.op == "st" and len(key.a[2]) == 2 and bare(F(key, "0")) is bare(self.lp) and F(key, "1") is self.staked and self.staked is not NOW:
            return good(self.indexlist("before", self.before)) if self.before else BAD
        return None


def seen(v):
    """the terms which say what a view stores, sends and answers"""
    for f, val, end in v.oks:
        yield val
        yield from end.store.values()
        yield from f
    for e, f in v.effects():
        yield e["key"]
        if "val" in e:
            yield e["val"]
        yield from f
    for m in v.msgs():
        yield m.m


def ago(a, b):
    return lin_sub(a, b)


# what can have happened to a reward since the last update: (external, later periods, is it gone)
CASES = {
    "int": (False, (), False),
    "run": (True, ("p",), False),
    "end": (True, (), True),
    "next": (True, ("p", "q"), False),
    "skip": (True, ("p",), True),
    "skipnext": (True, ("p", "q"), False),
    "skipend": (True, ("p", "q"), True),
    "left": (True, (), True),  # was not in the pool any more
}


class Grown(Rew):
    """a reward with what has happened to it since the last update"""

    def __init__(self, n, case, kind="N"):
        ext, sched, self.gone = CASES[case]
        super().__init__(n, ext, kind, sched)
        self.case = case

    def assume(self, last):
        """what has happened since the last update"""
        if not self.ext or self.case == "left":
            return []
        ps = [self.next] + [self.period(s)[0] for s in self.sched]
        out = [le(last, self.next)] + [lt(a, b) for i, a in enumerate(ps) for b in ps[i + 1:]]
        passed = {"run": 0, "end": 1, "next": 1, "skip": 2, "skipnext": 2, "skipend": 3}[self.case]
        out += [le(p, NOW) for p in ps[:passed]]
        if passed < len(ps):
            out.append(lt(NOW, ps[passed]))
        return out

    def collected(self, last):
        """what the reward has emitted since"""
        if self.case in ("int", "run"):
            return mul(self.rps, ago(NOW, last))
        out, t = mul(self.rps, ago(self.next, last)), self.next
        for i, s in enumerate(self.sched):
            end, rps = self.period(s)
            last_ = not self.gone and i == {"next": 0, "skipnext": 1}[self.case]
            out = add(out, mul(rps, ago(NOW if last_ else end, t)))
            if last_:
                break
            t = end
        return out

    @property
    def now(self):
        """(reward type, rate) after the update"""
        if self.case in ("int", "run"):
            return self.type, self.rps
        if self.gone:
            return None, None
        end, rps = self.period(self.sched[{"next": 0, "skipnext": 1}[self.case]])
        return st(RT, "Ext", (("info", self.info), ("next_update_ts", end))), rps


def owed(h, f, x, index):
    """what a position has to be paid of a reward (rounding aside): [(facts, amount)]; index: the reward's index as of now"""
    ended = [sym(f"done{i}.{x.n}") for i, xs in enumerate(f.done) if x in xs]
    user = x.user if f.indexes and "pos" not in f.absent and x not in f.before else INT(0)
    due, now = ended + [index] * (x.gone and x.case != "left"), [] if x.gone else [index]
    out = [mul(lin_sub(y, user) if not k else y, f.had) for k, y in enumerate(due)]
    if not now:
        return [(h, totalled(out))]
    if ended or user is INT(0):
        return [(h, totalled(out + [mul(index, f.had)]))]
    # an index below the position's belongs to a reward which has begun anew
    res = [(plus(h, lt(index, user)), mul(index, f.had)), (plus(h, le(user, index)), mul(lin_sub(index, user), f.had))]
    return [(g, totalled(out + [a])) for g, a in res if g is not None]


def totalled(xs):
    out = INT(0)
    for x in xs:
        out = add(out, x)
    return out


SINGLES = [(c,) for c in CASES if c != "left"]
PAIRS = [("int", "end"), ("skipnext", "skip"), ("end", "skipend"), ("run", "int", "next")]
WRITES = ("Deposit.N", "Receive.T", "Withdraw.N", "Withdraw.T", "ClaimRewards.N", "ClaimRewards.T")
READS = ("PendingRewards.N", "PendingRewards.T")


def grown(cs, names="r"):
    return [Grown(f"{names}{i}", c, "NT"[i % 2]) for i, c in enumerate(cs)]


def both(ctx, a, b):
    """a claim of the pools of two farms"""
    al = [x for x in a.alias + b.alias if x[0][0] not in ("range", "load") and x[0] != (sym("msg"), "lp_tokens")]

    def first(n):
        return lambda *xs: next((y for f in (a, b) for y in [getattr(f, n)(*xs)] if y is not None), None)

    al += [((sym("msg"), "lp_tokens"), arr(bare(a.lp), bare(b.lp))), (("range", "reward_schedules"), first("periods"))]
    al += [(("range", "fin_rew_inds"), first("finished")), (("load", "fin_rew_inds"), first("finished_at"))]
    a.alias = b.alias = tuple(al)
    a.assume = b.assume = a.assume + b.assume
    a.v = b.v = ctx.view(INC, a.entry, a.variant, alias=a.alias, assume=a.assume)
    return a, b


def farm(ctx, how, cs, empty=False, lost=None, twins=False, names="r", **kw):
    """lost: whether ended rewards nobody staked for have left something; twins: all rewards are the same asset"""
    rs = grown(cs, names)
    for x in rs if twins else ():
        x.atom, x.info, x.kind = rs[0].atom, rs[0].info, rs[0].kind
    for k in ("done", "before"):
        if k in kw:
            kw[k] = [[rs[i] for i in xs] if k == "done" else rs[xs] for xs in kw[k]]

    def assume(f):
        out = [lt(f.last, NOW), eq(INT(0), f.total) if empty else lt(INT(0), f.total)]
        for x, some in zip([x for x in rs if x.gone], lost or ()):
            left = eq(INT(0), add(x.orphaned, x.collected(f.last)))
            out.append(neg(left) if some else left)
        return out + [a for x in rs for a in x.assume(f.last)]

    return Farm(ctx, how, rs, assume=assume, **kw)


def states(f):
    """how a pool and its entries can be left: [(facts, stored pool, {namespace: [(entry before, value)]})]"""
    for fs, val, end in f.v.oks:
        h = plus(fs, *f.assume)
        if h is None:
            continue
        ks = sorted((k for k in end.store), key=lambda k: (k[0].id, k[1].id))
        for g, xs in cases(h, *[end.store[k] for k in ks]):
            st_ = {}
            for k, x in zip(ks, xs):
                st_.setdefault(nsof(k[0]), []).append((mk("may", *k), x))
            yield g, st_, val


def rewardlist(h, t):
    for g, u in hoisted(h, t, 16):
        yield g, u.a if u.op == "arr" else None


def updated(f, x, h, items):
    """(is the reward as it has to be after the update, its stored term)"""
    type_, rps = x.now
    c = x.collected(f.last)
    empty = holds(h, is_eq(f.total, INT(0)))
    want = x.index if empty else add(x.index, div(add(x.orphaned, c), f.total))
    rest = add(x.orphaned, c) if empty else INT(0)
    mine = [e for e in items if isof(F(e, "reward"), x)]
    if x.gone:
        return not mine, want, rest
    good_ = len(mine) == 1 and F(mine[0], "reward") is type_ and req(F(mine[0], "rps"), rps) and req(F(mine[0], "index"), want) and req(F(mine[0], "orphaned"), rest)
    return good_, want, rest


def isof(t, x):
    """whether a reward type is a reward's: ASTRO can be emitted and also be incentivized by others"""
    return infoof(t) is x.info and (t.op == "st" and t.a[1] == "Ext") == x.ext


def infoof(t):
    return F(t, "info") if t.op == "st" and t.a[1] == "Ext" else F(t, "0")


def listed(t):
    """(what a list starts with, what is added)"""
    if t.op == "ext":
        b, xs = listed(t.a[0])
        c, ys = listed(t.a[1])
        return (b, xs + ys) if c is None and ys is not None and xs is not None else (b, None)
    if t.op == "app":
        b, xs = listed(t.a[0])
        return b, None if xs is None else xs + [t.a[1]]
    if t.op == "arr":
        return None, list(t.a)
    return t, []


def ended_ok(h, prev, val, f, x, index):
    """the index of a reward which has ended is kept for those who did not claim it yet"""
    key = prev.a[1]
    if not (key.op == "st" and bare(F(key, "0")) is bare(f.lp) and F(key, "1") is NOW and val.op != "bad"):
        return False
    for g, t in hoisted(h, ok(val), 8):
        base, xs = listed(t)
        if xs is None or base is not None and base is not ok(prev) or base is None and not holds(g, lambda l: l is neg(isok(prev))):
            return False
        if sum(F(e, "0") is x.info and req(F(e, "1"), index) for e in xs) != 1:
            return False
    return True


def custody_case(r, tag, f):
    """what is staked after a deposit, withdrawal or claim"""
    if not r.ob(f"{tag}/one", f.ok, "one pool and one position are read", f.how):
        return
    key = f.pos.a[0].a[1]
    r.ob(f"{tag}/key", key.op == "st" and bare(F(key, "0")) is bare(f.lp) and strip(F(key, "1")) is strip(f.staker), "the position is the staker's own in the pool of the LP token", f.how)
    n, d = 0, {"D": 1, "R": 1, "W": -1, "C": 0}[f.how[0]]
    amt = f.amt if d > 0 else msg("amount") if d else INT(0)

    def after(x):
        return add(x, amt) if d > 0 else lin_sub(x, amt) if d else x

    for h, stored, val in states(f):
        n += 1
        ps = [(k, x) for k, x in stored.get("pools", []) if x is not k]
        us = [(k, x) for k, x in stored.get("user_info", []) if x is not k]
        good_ = len(ps) == len(us) == 1 and ps[0][0] is f.pool.a[0] and us[0][0] is f.pos.a[0]
        if not r.ob(f"{tag}/stored", good_ and ps[0][1].op == "good", "exactly the pool and the position are stored", f.how):
            continue
        r.ob(f"{tag}/total", req(F(ok(ps[0][1]), "total_lp"), after(f.total)), "the pool's total changes by exactly the amount moved", f.how)
        left = us[0][1]
        if left.op == "bad":
            r.ob(f"{tag}/removed", d < 0 and (iszero(h, after(f.had)) or holds(h, is_eq(f.had, amt)) or hle(h, f.had, amt)), "only an empty position is removed", f.how)
        else:
            r.ob(f"{tag}/amount", req(F(ok(left), "amount"), after(f.had)), "the position changes by exactly the amount moved", f.how)
        if d < 0:
            r.ob(f"{tag}/covered", hle(h, amt, f.had), "nobody withdraws more than the position holds", f.how)
        if d > 0:
            r.ob(f"{tag}/registered", lpknown(h, f.lp), "the LP token is the one of a pair the factory knows", f.how)
        for k, ms in sends(f.v, h, val):
            p = None if ms is None else paid(f, f.rewards, ms)
            if not r.ob(f"{tag}/sent", p is not None and len(p[2]) == (d < 0), "nothing leaves but rewards and what is withdrawn", f.how) or d >= 0:
                continue
            ys = pays(p[2][0])
            good_ = len(ys) == 1 and ys[0].kind == ("native" if f.kind == "N" else "cw20") and ys[0].asset is bare(f.lp) and strip(ys[0].to) is SENDER and ys[0].amount is amt
            r.ob(f"{tag}/back", good_, "exactly the named amount of the LP token goes to the owner of the position", f.how)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", f.how)


def lpknown(h, lp):
    """the factory answers with a pair which has this LP token"""
    def is_(l):
        if l.op != "eq":
            return False
        for x, y in (l.a, l.a[::-1]):
            q = qcall(x.a[0]) if x.op == "fld" and x.a[1] == "liquidity_token" else None
            if q and q[0] is F(CFG, "factory") and q[1].op == "st" and q[1].a[1] == "Pair" and strip(y) is bare(lp):
                return True
        return False
    return holds(h, is_)


@prop("I01", 60, "what positions and pools hold after every entry, and which LP tokens leave")
def custody(ctx, r):
    for how in WRITES:
        base = {}
        if how[0] in "DR":
            for to in (None, "recipient") + (("for",) if how[0] == "R" else ()):
                for gone in ((), ("pos",), ("pool", "pos")):
                    f = farm(ctx, how, ("int", "run"), empty=bool(gone), to=to, absent=gone)
                    custody_case(r, f"{how}/{to or 'own'}/{'+'.join(gone) or 'known'}", f)
        else:
            custody_case(r, how, farm(ctx, how, ("int", "run")))
    twice = ctx.view(INC, "execute", "ClaimRewards", alias=(((sym("msg"), "lp_tokens"), arr(LPA, LPA)),))
    r.ob("ClaimRewards.twice", not twice.oks, "a pool cannot be claimed twice in one call", "execute ClaimRewards")
    for v in (v for en in ("instantiate", "execute", "reply", "migrate", "sudo") if ctx.has(INC, en) for v in ctx.views(INC, en)):
        if v.entry == "execute" and v.variant in ("Deposit", "Receive", "Withdraw", "ClaimRewards"):
            continue
        where = f"{v.entry}.{v.variant or ''}"
        for e, fs in v.effects():
            if nsof(e["item"]) == "user_info":
                r.ob(f"{where}/positions", False, "positions change by deposits, withdrawals and claims only", v.where(e))
            elif nsof(e["item"]) == "pools":
                good_ = "val" in e and e["val"] is not BAD and all(staysput(g, x, k) or staysput(g, x, e["key"]) for g, (k, x) in cases(fs, e["key"], F(e["val"], "total_lp")))
                r.ob(f"{where}/total", good_, "a pool's total changes by deposits and withdrawals only", v.where(e))
        r.ob(f"{where}/frame", True, "looked at", where)


def staysput(h, x, key, seen=()):
    """x is the total the pool at key has had"""
    if x in seen:
        return True
    was = ld("pools", key)
    if x is F(was, "total_lp") or x is INT(0) and holds(h, lambda l: l is neg(isok(was.a[0]))):
        return True
    path, y = [], x
    while y.op == "fld":
        path.append(y.a[1])
        y = y.a[0]
    if path == ["total_lp"] and y.op == "ok" and y.a[0].op == "may" and y is ld("pools", y.a[0].a[1]):
        return all(u is key or holds(g, is_eq(u, key)) for g, u in hoisted(h, y.a[0].a[1], 12))
    return y in PHI and all(staysput(g, u, key, seen + (x,)) for z in PHI[y] for g, u in hoisted(h, F(z, *reversed(path)), 12))


@prop("I02", 60, "what a pool's rewards become in every entry which touches them, for every case of passed periods, against rate times time over stake")
def accrual(ctx, r):
    for how in WRITES:
        for cs in SINGLES + PAIRS:
            for empty in (False, True):
                tag = f"{how}/{'+'.join(cs)}/{'empty' if empty else 'staked'}"
                n = sum(CASES[c][2] for c in cs)
                for lost in product((False, True), repeat=n) if empty and n > 1 else [None]:
                    f = farm(ctx, how, cs, empty, lost)
                    if not r.ob(tag, f.ok, "one pool and one position are read", how):
                        continue
                    accrual_case(r, tag + "".join(f"/{int(x)}" for x in lost or ()), f, empty)
    for kind in "NT":
        for cs in SINGLES + PAIRS:
            for empty in (False, True):
                rewards_case(r, f"RewardInfo.{kind}/{'+'.join(cs)}/{'empty' if empty else 'staked'}", farm(ctx, f"RewardInfo.{kind}", cs, empty))


def rewards_case(r, tag, f):
    """what the rewards of a pool are said to be"""
    if not r.ob(tag, f.ok, "one pool is read", f.how):
        return
    n = 0
    for fs, val, _ in f.v.oks:
        h = plus(fs, *f.assume)
        if h is None:
            continue
        for g, (y,) in cases(h, val):
            y = y.a[0] if y.op == "json" else y
            for k, items in rewardlist(g, y):
                n += 1
                if r.ob(f"{tag}/list", items is not None and len(items) == sum(not x.gone for x in f.rewards), "the answer lists exactly the rewards which have not ended", f.how):
                    for x in f.rewards:
                        if x.case != "left":
                            r.ob(f"{tag}/{x.n}", updated(f, x, k, items)[0], "the reward is stated as an update now would leave it", f.how)
    r.ob(f"{tag}/possible", n > 0, "the query can succeed", f.how)


def iszero(h, t):
    return req(t, INT(0)) or holds(h, lambda l: l.op == "eq" and INT(0) in l.a and any(req(y, t) or req(add(y, t), INT(0)) for y in l.a if y is not INT(0)))


def alike(h, a, b):
    """the amounts are the same, amounts known to be zero aside"""
    d = lin_sub(a, b)
    if req(d, INT(0)):
        return True
    zs = {y for l in alllits(h) if l.op == "eq" and INT(0) in l.a and (l in h or holds(h, lambda x: x is l)) for y in l.a if y is not INT(0)}
    for z in zs:
        if any(x.op == "alt" for x in walk(z)) and all(any(req(v, INT(0)) or iszero(g, v) for v in (lin_sub(u, d), add(u, d))) for g, u in hoisted(h, z, 16)):
            return True
    sums = [d]
    for z in sorted(zs, key=lambda x: x.id)[:6]:
        sums += [y for x in sums for y in (add(x, z), lin_sub(x, z))]
        if any(req(x, INT(0)) for x in sums):
            return True
    return False


def collected_ok(h, prev, val, x, rest):
    """what nobody staked for is added to the orphaned rewards of the asset"""
    if not contains(prev.a[1], x.atom) or val.op == "bad":
        return False
    for g, t in hoisted(h, ok(val), 8):
        had = holds(g, lambda l: l is isok(prev))
        if not req(t, add(ok(prev), rest) if had else rest) or not had and not holds(g, lambda l: l is neg(isok(prev))):
            return False
    return True


def accrued(r, tag, f, g, items, stored, xs):
    """the rewards have accrued until now; what ended left its index, or its amount"""
    for x in xs:
        good_, index, rest = updated(f, x, g, items)
        r.ob(f"{tag}/{x.n}", good_, "index, rate and orphaned part follow from rate times time over stake", f.how)
        if not x.gone:
            continue
        fin = [y for y in stored.get("fin_rew_inds", []) if y[1] is not y[0]]
        orp = [y for y in stored.get("orphaned_rewards", []) if y[1] is not y[0] and contains(y[0].a[1], x.atom)]
        if iszero(g, rest):
            good_ = any(ended_ok(g, *y, f, x, index) for y in fin) and not orp
        else:
            good_ = len(orp) == 1 and collected_ok(g, *orp[0], x, rest)
        r.ob(f"{tag}/{x.n}/ended", good_, "an ended reward leaves its index for those who have not claimed, or its amount to the orphaned ones", f.how)


def accrual_case(r, tag, f, empty):
    n = 0
    for h, stored, _ in states(f):
        n += 1
        ps = [(k, x) for k, x in stored.get("pools", []) if x is not k]
        r.ob(f"{tag}/pool", len(ps) == 1 and ps[0][0] is f.pool.a[0] and ps[0][1].op == "good", "exactly the touched pool is stored", f.how)
        if len(ps) != 1 or ps[0][1].op != "good":
            continue
        p = ok(ps[0][1])
        r.ob(f"{tag}/time", F(p, "last_update_ts") is NOW, "the pool is up to date as of this block", f.how)
        for g, items in rewardlist(h, F(p, "rewards")):
            if not r.ob(f"{tag}/list", items is not None and len(items) == sum(not x.gone for x in f.rewards), "the pool keeps exactly the rewards which have not ended", f.how):
                continue
            accrued(r, tag, f, g, items, stored, f.rewards)
        extra = {k for k, xs in stored.items() if any(y is not p_ for p_, y in xs)} - {"pools", "user_info"}
        allowed = {"fin_rew_inds", "orphaned_rewards"} if any(x.gone for x in f.rewards) else set()
        r.ob(f"{tag}/frame", extra <= allowed, f"nothing else is stored: {sorted(extra)}", f.how)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", f.how)


def paid(f, rewards, ms):
    """({reward asset: amount}, protocol amount, everything else) a call sends to the staker"""
    out, prot, rest = {}, [], []
    for m in ms:
        if m.kind == "WasmMsg::Execute" and m.variant()[1] == "Claim":
            con, x, funds = m.exec()
            if con is F(CFG, "vesting_contract") and isgood(F(x, "recipient"), f.staker) and funds is arr():
                prot.append(ok(F(x, "amount")))
                continue
        ps = pays(m)
        x = next((x for x in rewards if len(ps) == 1 and ps[0].asset is x.atom), None)
        if x is None:
            rest.append(m)
        elif ps[0].kind != ("native" if x.kind == "N" else "cw20") or strip(ps[0].to) is not strip(f.staker) or not guarded(m):
            return None
        else:
            out.setdefault(x.atom, []).append(ps[0].amount)
    return {k: totalled(xs) for k, xs in out.items()}, totalled(prot), rest


def isgood(t, x):
    return t.op == "good" and strip(t.a[0]) is strip(x)


def guarded(m):
    """a transfer which fails only drops that transfer: it is reported to the contract and limited in gas"""
    sm = m.sub
    return sm is not None and F(sm, "reply_on").a[1] == "Error" and F(sm, "gas_limit") is F(CFG, "token_transfer_gas_limit")


def indexes(f, h, p):
    """index of every reward as of now, by the stored pool"""
    for g, items in rewardlist(h, F(p, "rewards")):
        if items is None:
            yield g, None
            continue
        yield g, {x.n: next((F(e, "index") for e in items if isof(F(e, "reward"), x)), updated(f, x, g, items)[1] if x.case != "left" else None) for x in f.rewards}


def claim_case(r, tag, *farms):
    n, f, rewards = 0, farms[0], [x for f in farms for x in f.rewards]
    for fs, val, end in f.v.oks:
        h = plus(fs, *f.assume)
        if h is None:
            continue
        now, pools = [(h, [])], []
        for y in farms:
            pool = end.store.get(y.pool.a[0].a)
            found = [ok(x) for g, (x,) in cases(h, pool)] if pool is not None else []
            if r.ob(f"{tag}/pool", len(found) == 1, "the pool is stored", f.how):
                pools += found
                now = [(k, xs + [idx]) for g, xs in now for k, idx in indexes(y, g, found[0])]
        if len(pools) != len(farms):
            continue
        for g, idxs in now:
            if not r.ob(f"{tag}/list", None not in idxs, "the rewards of the pool are known", f.how):
                continue
            want = [(g, {})]
            for y, idx in zip(farms, idxs):
                for x in y.rewards:
                    k = (x.atom, True) if x.ext else None
                    want = [(w2, {**d, k: d.get(k, ()) + (a,)}) for w, d in want for w2, a in owed(w, y, x, idx[x.n])]
            for w, amounts in want:
                for k, ms in sends(f.v, w, val):
                    n += 1
                    p = None if ms is None else paid(f, rewards, ms)
                    if not r.ob(f"{tag}/to", p is not None, "rewards are sent to the staker only, one by one", f.how):
                        continue
                    got, prot, rest = p
                    for what, a in amounts.items():
                        b = got.get(what[0], INT(0)) if what else prot
                        zs, a = [eq(INT(0), simp(k, y)) for y in a] * (len(farms) > 1), simp(k, totalled(a))
                        name = next(x.n for x in rewards if (x.atom, True) == what or not what and not x.ext)
                        good_ = all(alike(q, y, z) for k2 in split(k, *zs) for q, y in hoisted(k2, b, 16) for _, z in hoisted(q, a, 16))
                        r.ob(f"{tag}/{name}", good_, "the position is paid the growth of the index since its last claim times its size", f.how)
                    r.ob(f"{tag}/others", len(rest) == f.how.startswith("Withdraw") and (prot is INT(0) or any(not x.ext for x in rewards)), "nothing else is paid", f.how)
        for y, p in zip(farms, pools):
            synced(r, tag, y, h, p, end)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", f.how)


def synced(r, tag, f, h, p, end):
    """afterwards the position's indexes are the pool's"""
    key = f.pos.a[0]
    x = end.store.get(key.a)
    if not r.ob(f"{tag}/position", x is not None, "the position is stored", f.how):
        return
    for g, (y,) in cases(h, x):
        if y.op == "bad":
            continue
        u = ok(y)
        r.ob(f"{tag}/claimed", y is not key and F(u, "last_claim_time") is F(p, "last_update_ts"), "the time of the claim is the pool's", f.how)
        for g2, items in rewardlist(g, F(p, "rewards")):
            for _, mine in rewardlist(g2, F(u, "last_rewards_index")):
                good_ = items is not None and mine is not None and len(items) == len(mine)
                good_ = good_ and all(sum(F(m, "0") is F(e, "reward") and req(F(m, "1"), F(e, "index")) for m in mine) == 1 for e in items)
                r.ob(f"{tag}/indexes", good_, "the position takes over the index of every reward of the pool", f.how)


# what happened between the last claim and the last update
PASTS = [
    ("unclaimed", ("run", "end"), {"indexes": False}),
    ("ended", ("run",), {"done": [[0]]}),
    ("ended", ("end",), {"done": [[0]]}),
    ("ended", ("left",), {"done": [[0]]}),
    ("ended twice", ("run",), {"done": [[0], [0]]}),
    ("ended twice", ("left", "int"), {"done": [[0], [0]]}),
    ("ended together", ("left", "next"), {"done": [[0, 1]]}),
    ("ended unclaimed", ("left", "run"), {"done": [[0], [1]], "indexes": False}),
    ("removed after the claim", ("run",), {"before": [0]}),
    ("removed after the claim", ("end",), {"before": [0]}),
    ("removed after the claim", ("left",), {"before": [0]}),
    ("removed after the claim, ended", ("left",), {"before": [0], "done": [[0]]}),
    ("removed after the claim, ended", ("next",), {"before": [0], "done": [[0]]}),
    ("removed after the claim, other ended", ("left", "left"), {"before": [0], "done": [[1]]}),
    ("ended twice unclaimed", ("left",), {"done": [[0], [0]], "indexes": False}),
    ("ended twice unclaimed", ("next",), {"done": [[0], [0]], "indexes": False}),
    ("two of an asset", ("int", "run"), {"twins": True}),
    ("two of an asset, ended", ("int", "end"), {"twins": True}),
    ("two of an asset, one ended before", ("int", "left"), {"done": [[1]], "twins": True}),
    ("two of an asset, one removed", ("int", "run"), {"before": [1], "twins": True}),
]


@prop("I03", 60, "what a deposit, withdrawal or claim pays the staker in every case, against the growth of the indexes times the stake")
def claims(ctx, r):
    for how in WRITES:
        for cs in SINGLES + PAIRS:
            claim_case(r, f"{how}/{'+'.join(cs)}", farm(ctx, how, cs))
        for tag, cs, kw in PASTS:
            claim_case(r, f"{how}/{'+'.join(cs)}/{tag}", farm(ctx, how, cs, **kw))
    for a, b, same in ((("int",), ("int",), 0), (("int", "run"), ("end",), 0), (("run",), ("run",), 1), (("int",), ("run", "end"), 1)):
        for k in "NT":
            x, y = farm(ctx, f"ClaimRewards.{k}", a), farm(ctx, "ClaimRewards.N", b, names="s", lp=mk("atom", "lp2"))
            if same:
                # two rewards of both pools are the same asset
                for u in (x.rewards[-1], y.rewards[0]):
                    u.atom, u.info, u.kind = mk("atom", "shared"), info_of("N", mk("atom", "shared")), "N"
                x, y = x.again(), y.again()
            claim_case(r, f"ClaimRewards.{k}/{'+'.join(a)} and {'+'.join(b)}{' sharing' * same}", *both(ctx, x, y))
    for how in READS:
        for cs in SINGLES + PAIRS:
            pending_case(r, f"{how}/{'+'.join(cs)}", farm(ctx, how, cs))
        for tag, cs, kw in PASTS:
            pending_case(r, f"{how}/{'+'.join(cs)}/{tag}", farm(ctx, how, cs, **kw))


def below(h, a, b):
    """which of a < b and b <= a the facts tell: True, False, or None"""
    for l in alllits(h):
        if l.op in ("lt", "le") and (l in h or holds(h, lambda x: x is l)):
            x, y = l.a
            if req(x, a) and req(y, b) and l.op == "lt":
                return True
            if req(x, b) and req(y, a):
                return False
    return None


def pending_case(r, tag, f):
    n = 0
    for fs, val, _ in f.v.oks:
        h = plus(fs, *f.assume)
        if h is None:
            continue
        idx = {x.n: add(x.index, div(add(x.orphaned, x.collected(f.last)), f.total)) for x in f.rewards if x.case != "left"}
        for g, (y,) in cases(h, val):
            for k, items in rewardlist(g, js(y)):
                n += 1
                if not r.ob(f"{tag}/list", items is not None and all(any(F(e, "info") is x.info for x in f.rewards) for e in items), "the answer lists the position's rewards only", f.how):
                    continue
                sums = {}
                for x in f.rewards:
                    want = owed(k, f, x, idx.get(x.n))
                    if len(want) == 2:
                        # index below the position's or not, as the path has it
                        side = below(k, idx[x.n], x.user)
                        want = want[:1] if side else want[1:] if side is False else want
                    sums[x.info] = [(plus(w, *w2), add(a, b)) for w, a in sums.get(x.info, [(k, INT(0))]) for w2, b in want]
                for info, want in sums.items():
                    b = totalled([F(e, "amount") for e in items if F(e, "info") is info])
                    want = [(w, a) for w, a in want if w is not None]
                    good_ = want and all(alike(q, b, z) for w, a in want for q, z in hoisted(w, simp(w, a), 16))
                    r.ob(f"{tag}/{[x.n for x in f.rewards if x.info is info][0]}", good_, "pending rewards are what a claim would pay now", f.how)
    r.ob(f"{tag}/possible", n > 0, "the query can succeed", f.how)


COIN, ASSET = "cosmwasm_std::coin::Coin", "astroport::asset::Asset"
FEEINFO = "astroport::incentives::IncentivizationFeeInfo"
WEEK, EPOCHS = 604800, 1696809600


def coin(denom, amount):
    return st(COIN, "", (("denom", denom), ("amount", amount)))


class Item_:
    """one schedule of an offer: which pool, reward, what the pool knows of it"""

    def __init__(self, n, kind, lp, lpkind, rewards, new):
        self.n, self.kind, self.lp, self.lpkind, self.new = n, kind, lp, lpkind, new
        self.atom = mk("atom", "offered")
        self.info = info_of(kind, self.atom)
        self.amount, self.dur = sym(f"{n}.amount"), sym(f"{n}.periods")
        self.key = info_of(lpkind, call("unchecked", lp) if lpkind == "T" else lp)
        self.pool = ld("pools", self.key)
        self.rewards = list(rewards)
        self.total, self.last = (INT(0), INT(0)) if new else (F(self.pool, "total_lp"), F(self.pool, "last_update_ts"))

    @property
    def end(self):
        """when a schedule offered now ends, as the contract has it"""
        return add(add(mul(INT(WEEK), add(div(call("rem", NOW, INT(EPOCHS)), INT(WEEK)), INT(1))), mul(self.dur, INT(WEEK))), INT(EPOCHS))

    @property
    def start(self):
        return lin_sub(self.end, mul(self.dur, INT(WEEK)))

    @property
    def rate(self):
        return div(self.amount, lin_sub(self.end, NOW))


class Offer:
    """external rewards being offered, seen through an entry"""

    def __init__(self, ctx, items, fee=None, funds=(), astro=False, many=False, assume=()):
        """fee: what is charged for new rewards (denom atom, amount); funds: what is sent along"""
        self.ctx, self.items, self.fee, self.funds, self.many = ctx, items, fee, funds, many
        al = [((INFO, "funds"), arr(*[coin(*c) for c in funds]))]
        al.append(((CFG, "astro_token"), items[0].info if astro else info_of("N", mk("atom", "astro"))))
        f = st(FEEINFO, "", (("fee_receiver", sym("feeto")), ("fee", coin(*fee)))) if fee else None
        al.append(((CFG, "incentivization_fee_info"), good(f) if fee else BAD))
        asm = list(assume)
        if many:
            sched = [st("astroport::incentives::InputSchedule", "", (("reward", st(ASSET, "", (("info", x.info), ("amount", x.amount)))), ("duration_periods", x.dur))) for x in items]
            al.append(((sym("msg"), "0"), arr(*[tup(x.lp, y) for x, y in zip(items, sched)])))
        else:
            x = items[0]
            x.amount, x.dur = F(F(msg("schedule"), "reward"), "amount"), msg("schedule", "duration_periods")
            al += [((sym("msg"), "lp_token"), x.lp), ((F(msg("schedule"), "reward"), "info"), x.info)]
        for x in items:
            v = call("addr_validate", x.lp)
            asm.append(isok(v) if x.lpkind == "T" else neg(isok(v)))
            asm += [lt(NOW, x.end), lt(x.start, x.end), lt(NOW, x.start)]
            al += [((x.pool, "rewards"), arr(*[y.term for y in x.rewards])), ((x.pool, "rewards_to_remove"), arr())]
            if x.new:
                asm.append(neg(isok(x.pool.a[0])))
            else:
                asm += [isok(x.pool.a[0]), lt(x.last, NOW), lt(INT(0), x.total)]
                asm += [a for y in x.rewards for a in y.assume(x.last)]
        al.append((("range", "reward_schedules"), self.periods))
        self.alias, self.assume = tuple(al), tuple(asm)
        self.where = "IncentivizeMany" if many else "Incentivize"
        self.v = ctx.view(INC, "execute", self.where, alias=self.alias, assume=self.assume)

    def periods(self, key, rest):
        for x in self.items:
            for y in x.rewards:
                if not (y.ext and key.op == "st" and len(key.a[2]) == 2 and F(key, "0") is x.key and F(key, "1") is y.info):
                    continue
                for p in getattr(y, "points", [y.next, x.start]):
                    if begins(p, rest) in ("after", "at"):
                        return arr(*[good(tup(*q)) for q in getattr(y, "stored", [])])

    def outcomes(self):
        for fs, val, end in self.v.oks:
            h = plus(fs, *self.assume)
            if h is None:
                continue
            ks = sorted((k for k in end.store), key=lambda k: (k[0].id, k[1].id))
            for g, xs in cases(h, *[end.store[k] for k in ks]):
                for k, ms in sends(self.v, g, val):
                    yield k, {mk("may", *a): b for a, b in zip(ks, xs) if b is not mk("may", *a)}, ms


class Running(Grown):
    """a reward which is offered again: what its schedule was, and when the new one ends relative to it"""

    def __init__(self, item, before, between, stale):
        """before, between: names of stored periods which end before and after the new schedule; a trailing "=" ends with it"""
        super().__init__(f"{item.n}.run", "run")
        self.info, self.atom, self.kind = item.info, item.atom, item.kind
        self.before, self.after, self.item, self.stale = before, between, item, stale

    def settle(self):
        """fixes the order of all points in time"""
        end = self.item.end
        self.order, self.same = [], False
        for names, after in ((self.before, False), (self.after, True)):
            if after:
                self.order.append(end)
            for n in names:
                if n == "N":
                    self.order.append(self.next)
                elif n == "=N":
                    self.next = end
                elif n == "=":
                    self.same = True
                else:
                    self.order.append(sym(f"{self.n}.{n}.end"))
        self.stored = [(p, sym(f"{self.n}.rate{i}")) for i, p in enumerate(self.order) if p is not self.next and (p is not end or self.same) and self.order.index(p) > self.order.index(self.next)]
        self.points = [self.next, self.item.start]
        if self.stale:
            # an entry for the running period was left behind when it became the running one
            self.stored.insert(0, (self.next, self.rps))

    @property
    def stored_after(self):
        return self.stored

    def assume(self, last):
        return [le(last, self.next), lt(self.item.start, self.next), lt(NOW, self.next)] + [lt(a, b) for i, a in enumerate(self.order) for b in self.order[i + 1:]]

    def collected(self, last):
        return mul(self.rps, ago(NOW, last))

    def rateof(self, p, active, stored):
        """the rate on the stretch which ends at p, of a schedule"""
        i = self.order.index(p)
        end, rps = active
        if end not in self.order:
            return None
        j = self.order.index(end)
        if i <= j:
            return rps
        later = [self.order.index(t) for t in stored if t in self.order]
        later = sorted(k for k in later if k > j and k >= i)
        return stored[self.order[later[0]]] if later else INT(0)


def offered_case(r, tag, o, fees):
    """fees: number of fees to be paid"""
    n = 0
    for h, stored, ms in o.outcomes():
        n += 1
        if not r.ob(f"{tag}/messages", ms is not None, "the messages are known", o.where):
            continue
        for x in o.items:
            p = stored.get(x.pool.a[0])
            if not r.ob(f"{tag}/{x.n}/stored", p is not None and p.op == "good", "the pool is stored", o.where):
                continue
            for g, items in rewardlist(h, F(ok(p), "rewards")):
                if not r.ob(f"{tag}/{x.n}/rewards", items is not None and F(ok(p), "last_update_ts") is NOW, "the pool is up to date and its rewards are known", o.where):
                    continue
                mine = [e for e in items if F(e, "reward").op == "st" and F(e, "reward").a[1] == "Ext" and infoof(F(e, "reward")) is x.info]
                r.ob(f"{tag}/{x.n}/one", len(mine) == 1 and len(items) == len([y for y in x.rewards if not y.gone]) + (not any(isinstance(y, Running) for y in x.rewards)), "the reward is there once, beside the others", o.where)
                run = next((y for y in x.rewards if isinstance(y, Running)), None)
                for y in x.rewards:
                    if y is not run:
                        r.ob(f"{tag}/{x.n}/{y.n}", updated(x, y, g, items)[0], "other rewards accrue and go on", o.where)
                if len(mine) == 1:
                    scheduled(r, f"{tag}/{x.n}", o, x, run, mine[0], stored)
            r.ob(f"{tag}/{x.n}/blocked", unblocked(h, x.atom), "a blocked token is not accepted", o.where)
            r.ob(f"{tag}/{x.n}/registered", lpknown(h, x.key), "the LP token is the one of a pair the factory knows", o.where)
        known = {x.pool.a[0] for x in o.items}
        extra = {nsof(k.a[0]) for k in stored if k not in known} - {"reward_schedules"} - ({"fin_rew_inds"} if any(y.gone for x in o.items for y in x.rewards) else set())
        r.ob(f"{tag}/frame", not extra, f"nothing else is stored: {sorted(extra)}", o.where)
        # what comes in
        rest = list(ms)
        for x in o.items:
            if x.kind == "T":
                i = next((i for i, m in enumerate(rest) for q in [pays(m)] if len(q) == 1 and q[0].kind == "cw20from" and q[0].asset is x.atom and strip(q[0].frm) is SENDER and strip(q[0].to) is SELF and q[0].amount is x.amount), None)
                if r.ob(f"{tag}/{x.n}/taken", i is not None and onfail(rest[i]), "exactly the offered tokens are taken from the sender, or nothing happens", o.where):
                    rest.pop(i)
        for _ in range(fees):
            i = next((i for i, m in enumerate(rest) if m.kind == "BankMsg::Send" and m.f("to_address") is sym("feeto") and m.f("amount") is arr(coin(*o.fee))), None)
            if r.ob(f"{tag}/fee", i is not None, "the fee goes to its receiver", o.where):
                rest.pop(i)
        r.ob(f"{tag}/others", not rest, "nothing else is sent", o.where)
        for d, a in o.funds:
            want = totalled([x.amount for x in o.items if x.kind == "N" and x.atom is d] + [o.fee[1] for _ in range(fees) if o.fee[0] is d])
            r.ob(f"{tag}/funds", equals(h, a, want) or req(simp(h, a), simp(h, want)) or iszero(h, lin_sub(a, want)), "exactly the offered coins and the fee are sent along", o.where)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", o.where)


def onfail(m):
    """the call fails when this message does"""
    return m.sub is None or F(m.sub, "reply_on").op == "st" and F(m.sub, "reply_on").a[1] in ("Never", "Success")


def unblocked(h, atom):
    return holds(h, lambda l: l.op == "not" and l.a[0].op == "isok" and l.a[0].a[0].op == "may" and nsof(l.a[0].a[0].a[0]) == "blocked_tokens" and contains(l.a[0].a[0].a[1], atom))


def scheduled(r, tag, o, x, run, e, stored):
    t = F(F(e, "reward"), "next_update_ts")
    saved = {}
    for k, v in stored.items():
        if nsof(k.a[0]) == "reward_schedules":
            key = k.a[1]
            parts = [F(key, str(i)) for i in range(3)] if key.op == "st" and len(key.a[2]) == 3 else [None] * 3
            if parts[0] is x.key and parts[1] is x.info:
                saved[parts[2]] = v
            elif parts[0] is None or not any(parts[0] is y.key for y in o.items):
                saved[None] = v
    if not r.ob(f"{tag}/keys", None not in saved, "schedules are stored for the offered reward only", o.where):
        return
    if run is None:
        good_ = t is x.end and req(F(e, "rps"), x.rate) and F(e, "index") is INT(0) and F(e, "orphaned") is INT(0) and not saved
        r.ob(f"{tag}/new", good_, "a new reward pays what is offered evenly from now until the end of its last week", o.where)
        return
    r.ob(f"{tag}/index", req(F(e, "index"), add(run.index, div(add(run.orphaned, run.collected(x.last)), x.total))) and req(F(e, "orphaned"), INT(0)), "the reward accrued at its old rate until now", o.where)
    was = dict(run.stored)
    now = {**was, **{k: (ok(v) if v.op == "good" else None) for k, v in saved.items()}}
    now = {k: v for k, v in now.items() if v is not None}
    for i, p in enumerate(run.order):
        a, b = run.rateof(p, (run.next, run.rps), was), run.rateof(p, (t, F(e, "rps")), now)
        inside = i <= run.order.index(x.end)
        r.ob(f"{tag}/stretch", a is not None and b is not None and req(b, add(a, x.rate) if inside else a), "until its end the new schedule adds its rate to what was scheduled before, afterwards nothing changes", o.where)
    r.ob(f"{tag}/known", all(k in run.order for k in now), "schedules end when old ones or the new one do", o.where)


ORDERS = [
    (("N",), ()), (("N", "a"), ()), (("N", "a"), ("b",)), (("N",), ("a",)), (("N",), ("a", "b")), (("N", "a", "b"), ()), (("N", "a"), ("=", "b")), (("N",), ("=",)),
    (("=N",), ()), (("=N",), ("a",)), ((), ("N",)), ((), ("N", "a")),
]


class Season:
    """the pools which receive emissions, seen through an administrative entry; last pool: not active before"""

    def __init__(self, ctx, variant, cs, alias=(), assume=(), kinds="TNN", entry="execute", gone=(), extra=()):
        """cs: the rewards of each pool besides emissions; gone: pools which do not exist yet"""
        self.ctx, self.variant, al, asm = ctx, variant, list(alias), list(assume)
        self.pools, self.extra = [], set(extra)
        for i, c in enumerate(cs):
            p = Plot(i, kinds[i], c)
            self.pools.append(p)
            asm += [neg(isok(call("addr_validate", p.atom)))] * (kinds[i] == "N")
            al += [((p.info_, "rewards"), arr(*[x.term for x in p.rewards])), ((p.info_, "rewards_to_remove"), arr())]
            if p in gone or i in gone:
                p.new = True
                asm.append(neg(isok(p.info_.a[0])))
            else:
                asm += [isok(p.info_.a[0]), lt(p.last, NOW), lt(INT(0), p.total)]
                asm += [a for x in p.rewards for a in x.assume(p.last)]
        self.before = self.pools[:-1]
        al += [(("load", "active_pools"), good(arr(*[tup(p.key, p.alloc) for p in self.before]))), (("range", "reward_schedules"), self.periods)]
        self.sum = totalled([p.alloc for p in self.before])
        al.append(((CFG, "total_alloc_points"), self.sum))
        self.alias, self.assume = tuple(al), tuple(asm)
        self.v = ctx.view(INC, entry, variant, alias=self.alias, assume=self.assume)

    def periods(self, key, rest):
        for p in self.pools:
            for x in p.rewards:
                if x.ext and key.op == "st" and len(key.a[2]) == 2 and F(key, "0") is p.key and F(key, "1") is x.info and begins(x.next, rest) == "after":
                    return arr(*[good(tup(*x.period(s))) for s in x.sched])

    def outcomes(self):
        for fs, val, end in self.v.oks:
            h = plus(fs, *self.assume)
            if h is None:
                continue
            ks = sorted((k for k in end.store), key=lambda k: (k[0].id, k[1].id))
            for g, xs in cases(h, *[end.store[k] for k in ks]):
                yield g, {mk("may", *k): x for k, x in zip(ks, xs) if x is not mk("may", *k)}, val


class Plot:
    """a pool of a season"""

    def __init__(self, i, kind, cs):
        self.n, self.kind, self.atom = f"p{i}", kind, mk("atom", f"lp{i}")
        self.key = info_of(kind, self.atom)
        self.info_ = ld("pools", self.key)
        self.alloc = sym(f"p{i}.alloc")
        self.total, self.last = F(self.info_, "total_lp"), F(self.info_, "last_update_ts")
        self.rewards = [Grown(f"p{i}.r{k}", c, "NT"[k % 2]) for k, c in enumerate(cs)]
        self.new = False


def emissions_case(r, tag, s, active, aps, total=None, untouched=False):
    """active: [(pool, points)] to receive emissions afterwards; aps: tokens per second afterwards"""
    n = 0
    total = totalled([a for _, a in active]) if total is None else total
    for h, stored, val in s.outcomes():
        n += 1
        cfg, act = stored.get(CFG.a[0]), stored.get(ld("active_pools").a[0])
        c = CFG if cfg is None else ok(cfg) if cfg.op == "good" else None
        if not r.ob(f"{tag}/config", c is not None, "the configuration is kept", s.variant):
            continue
        points = s.sum if keeps(c, "total_alloc_points", CFG) else F(c, "total_alloc_points")
        r.ob(f"{tag}/total", req(points, total), "the total is the sum of the points of the pools which receive emissions", s.variant)
        r.ob(f"{tag}/second", req(F(c, "astro_per_second"), aps), "tokens per second are as set", s.variant)
        r.ob(f"{tag}/frame", not changed(c, CFG, set(fields_of(s.ctx.prog, adtname(c) or CONFIG) or ()) - {"total_alloc_points", "astro_per_second"}), "no other setting changes", s.variant)
        for g, xs in rewardlist(h, ok(act)) if act is not None else [(h, [tup(p.key, p.alloc) for p in s.before])]:
            want = {(p.key, a) for p, a in active}
            got = xs is not None and [(F(e, "0"), F(e, "1")) for e in xs]
            r.ob(f"{tag}/active", xs is not None and len(got) == len(want) and all(any(k is w and req(a, b) for w, b in want) for k, a in got), "exactly the pools which receive emissions are listed, with their points", s.variant)
        for p in s.pools:
            al = next((a for q, a in active if q is p), None)
            x = stored.get(p.info_.a[0])
            if al is None and p not in s.before or untouched:
                r.ob(f"{tag}/{p.n}/left", x is None, "other pools are left alone", s.variant)
                continue
            if not r.ob(f"{tag}/{p.n}/stored", x is not None and x.op == "good", "the pool is stored", s.variant):
                continue
            for g, items in rewardlist(h, F(ok(x), "rewards")):
                rate = div(mul(aps, al), total) if al is not None else INT(0)
                r.ob(f"{tag}/{p.n}/list", items is not None and plot_ok(p, items, rate, ok(x)), "a pool accrues at the old rate until now and has its share of the emissions from now on", s.variant)
        known = {p.info_.a[0] for p in s.pools} | {CFG.a[0], ld("active_pools").a[0]}
        extra = {nsof(k.a[0]) for k in stored if k not in known} - ({"fin_rew_inds"} if any(x.gone for p in s.pools for x in p.rewards) else set())
        r.ob(f"{tag}/others", extra <= s.extra, f"nothing else is stored: {sorted(extra)}", s.variant)
        r.ob(f"{tag}/sent", all(not ms for k, ms in sends(s.v, h, val)), "nothing is sent", s.variant)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", s.variant)


def plot_ok(p, items, rate, stored):
    """the pool's rewards accrued until now; emissions go on at the given rate"""
    ints = [e for e in items if F(e, "reward").op == "st" and F(e, "reward").a[1] == "Int"]
    exts = [e for e in items if e not in ints]
    mine = [x for x in p.rewards if not x.ext]
    if len(ints) != 1 or F(stored, "last_update_ts") is not NOW:
        return False
    e = ints[0]
    index = INT(0)
    if mine:
        index = add(mine[0].index, div(add(mine[0].orphaned, mine[0].collected(p.last)), p.total))
        if F(e, "reward") is not mine[0].type:
            return False
    elif F(F(e, "reward"), "0") is not F(CFG, "astro_token"):
        return False
    if not (req(F(e, "rps"), rate) and req(F(e, "index"), index) and req(F(e, "orphaned"), INT(0))):
        return False
    left = [x for x in p.rewards if x.ext and not x.gone]
    for x in left:
        type_, rps = x.now
        want = add(x.index, div(add(x.orphaned, x.collected(p.last)), p.total))
        if sum(F(y, "reward") is type_ and req(F(y, "rps"), rps) and req(F(y, "index"), want) and req(F(y, "orphaned"), INT(0)) for y in exts) != 1:
            return False
    return len(left) == len(exts)


PLOTS = [(("int",), ("int", "run"), ()), (("int", "end"), ("next", "int"), ("run",))]
APS = F(CFG, "astro_per_second")


def membership(s, what):
    """the questions whether a collection of `what` contains something, per active pool"""
    out = {p: set() for p in s.before}
    for fs, _, _ in s.v.oks:
        for l in alllits(fs):
            x = l.a[0] if l.op == "not" else l
            if x.op == "any":
                for p in s.before:
                    if contains(x, p.atom) and what(x):
                        out[p].add(x)
    return out


@prop("I04", 60, "rates, points and the list of active pools after every entry which changes them, for concrete sets of pools")
def emissions(ctx, r):
    for i, cs in enumerate(PLOTS):
        s = Season(ctx, "SetTokensPerSecond", cs)
        emissions_case(r, f"SetTokensPerSecond/{i}", s, [(p, p.alloc) for p in s.before], msg("amount"))
        # setting up: an active pool goes, one stays, one is new
        x, y = sym("x"), sym("y")
        for gone in (False, True):
            al = (((sym("msg"), "pools"), arr(tup(mk("atom", "lp2"), y), tup(mk("atom", "lp1"), x))),)
            s = Season(ctx, "SetupPools", cs[:-1] + ((),) if gone else cs, al, gone=(2,) * gone)
            emissions_case(r, f"SetupPools/{i}/{'new' if gone else 'known'}", s, [(s.pools[2], y), (s.pools[1], x)], APS)
        twice = Season(ctx, "SetupPools", cs, (((sym("msg"), "pools"), arr(tup(mk("atom", "lp1"), y), tup(mk("atom", "lp1"), x))),))
        r.ob("SetupPools/twice", not list(twice.outcomes()), "a pool is set up once", "SetupPools")
        # one pool loses its emissions
        for lp, left in (("lp1", (0,)), ("lp2", (0, 1))):
            s = Season(ctx, "DeactivatePool", cs, (((sym("msg"), "lp_token"), mk("atom", lp)),))
            emissions_case(r, f"DeactivatePool/{i}/{lp}", s, [(s.pools[k], s.pools[k].alloc) for k in left], APS, untouched=lp == "lp2")
        # pools of blocked types, pools with blocked tokens
        toks = [mk("atom", "t0"), mk("atom", "t1")]
        add_ = (((sym("msg"), "add"), arr(*[info_of(k, t) for k, t in zip("NT", toks)])), ((sym("msg"), "remove"), arr()))
        none = (((sym("msg"), "add"), arr()), ((sym("msg"), "remove"), arr(info_of("N", toks[0]))))
        s = Season(ctx, "UpdateBlockedTokenslist", cs, none, extra={"blocked_tokens"})
        emissions_case(r, f"UpdateBlockedTokenslist/{i}/remove", s, [(p, p.alloc) for p in s.before], APS, untouched=True)
        for variant, al, tests in (
            ("DeactivateBlockedPools", (), [lambda t: any(q.op == "ok" and blockedtypes(q) for q in walk(t))]),
            ("UpdateBlockedTokenslist", add_, [lambda t, a=a: contains(t, a) for a in toks]),
        ):
            s = Season(ctx, variant, cs, al)
            found = [membership(s, t) for t in tests]
            if not r.ob(f"{variant}/{i}/asked", all(len(m[p]) == 1 for m in found for p in s.before), "every active pool is asked about", variant):
                continue
            qs = [(p, next(iter(m[p]))) for m in found for p in s.before]
            for bits in product((False, True), repeat=len(qs)):
                out = {p for (p, _), b in zip(qs, bits) if b}
                asm = [l if b else neg(l) for (_, l), b in zip(qs, bits)]
                s2 = Season(ctx, variant, cs, al, asm, extra={"blocked_tokens"} if al else ())
                left = [(p, p.alloc) for p, q in zip(s2.before, s.before) if q not in out]
                emissions_case(r, f"{variant}/{i}/{''.join(map(str, map(int, bits)))}", s2, left, APS, untouched=not out)


def blockedtypes(t):
    q = qcall(t)
    return q is not None and q[0] is F(CFG, "factory") and q[1].op == "st" and q[1].a[1] == "BlacklistedPairTypes"


def item(n="i", kind="N", lp=LPA, lpkind="N", cs=(), new=False):
    return Item_(n, kind, lp, lpkind, [Grown(f"{n}{i}", c, "NT"[i % 2]) for i, c in enumerate(cs)], new)


@prop("I05", 60, "what offering external rewards stores, takes and charges, for every position of the new schedule among the running ones")
def offers(ctx, r):
    FEE = (mk("atom", "feecoin"), sym("fee"))
    for kind, lpkind in product("NT", "NT"):
        for cs, new in (((), True), ((), False), (("int", "run"), False), (("end", "int"), False)):
            for fee in (None, FEE, (mk("atom", "offered"), sym("fee"))):
                tag = f"new/{kind}{lpkind}/{'+'.join(cs) or ('unknown' if new else 'none')}/{'free' if fee is None else 'fee' if fee is FEE else 'samecoin'}"
                x = item(kind=kind, lpkind=lpkind, cs=cs, new=new)
                paying = ([x.atom] if kind == "N" else []) + [d for d in [fee and fee[0]] if d is not None]
                funds = [(d, sym(f"sent{i}")) for i, d in enumerate(dict.fromkeys(paying))] + [(mk("atom", "foreign"), sym("sent9"))]
                for many in (False, True):
                    x = item(kind=kind, lpkind=lpkind, cs=cs, new=new)
                    offered_case(r, f"{tag}{'/many' * many}", Offer(ctx, [x], fee, funds, many=many), fees=fee is not None)
                    if cs:
                        continue
                    x = item(kind=kind, lpkind=lpkind, cs=cs, new=new)
                    offered_case(r, f"{tag}{'/many' * many}/astro", Offer(ctx, [x], fee, funds, astro=True, many=many), fees=0)
    for i, (b, a) in enumerate(ORDERS):
        for stale in (False, True):
            for kind in "NT":
                x = item(kind=kind, cs=("int",))
                x.rewards.append(Running(x, b, a, stale))
                x.amount, x.dur = F(F(msg("schedule"), "reward"), "amount"), msg("schedule", "duration_periods")
                x.rewards[-1].settle()
                o = Offer(ctx, [x], FEE, [(x.atom, sym("sent0"))] if kind == "N" else [])
                offered_case(r, f"again/{kind}/{i}{'/stale' * stale}", o, fees=0)
    for cs, new in (((), True), ((), False), (("run", "end"), False), (("int", "next", "skip"), False)):
        for which, kind, astro in product([None] + list(range(len(cs))), "NT", (False, True)):
            feequery_case(r, ctx, f"IsFeeExpected/{'+'.join(cs) or ('unknown' if new else 'none')}/{which}/{kind}{'/astro' * astro}", cs, which, kind, astro, new)
    # two in one call share what is sent along
    for fee in (None, FEE):
        x, y = item("i"), item("j", lp=mk("atom", "lp2"))
        o = Offer(ctx, [x, y], fee, [(x.atom, sym("sent0"))] + ([(fee[0], sym("sent1"))] if fee else []), many=True)
        offered_case(r, f"two/{'fee' if fee else 'free'}", o, fees=2 * (fee is not None))
    # how many tokens a pool can have
    for n, astro, more in ((4, False, ()), (5, False, ()), (5, True, ()), (4, False, ("int",)), (5, False, ("int",)), (5, False, ("end",)), (4, False, ("end",))):
        x = item(cs=more + ("run",) * n)
        o = Offer(ctx, [x], None, [(x.atom, sym("sent0"))], astro=astro)
        k = len(list(o.outcomes()))
        r.ob(f"limit/{n}{'+' * bool(more)}{''.join(more)}{'/astro' * astro}", (k > 0) == (n < 5 or astro), "a pool has at most five external rewards besides ASTRO", o.where)
    # bounds of a schedule
    x = item()
    o = Offer(ctx, [x], None, [(x.atom, sym("sent0"))])
    for h, _, _ in o.outcomes():
        r.ob("bounds/periods", hle(h, x.dur, INT(25)) and holds(h, lambda l: l is neg(eq(INT(0), x.dur))), "a schedule lasts one to 25 weeks", o.where)
        r.ob("bounds/rate", holds(h, lambda l: l.op == "le" and req(l.a[0], INT(1)) and req(l.a[1], x.rate) or ge0(l, lin_sub(x.amount, lin_sub(x.end, NOW)))), "a schedule pays at least one unit per second", o.where)


class Removal:
    """a reward being removed from a pool"""

    def __init__(self, ctx, rewards, x, lpkind, bypass, empty, form):
        self.how, self.x, self.rewards, self.bypass, self.empty = "RemoveRewardFromPool", x, rewards, bypass, empty
        for y in rewards:
            y.info = info_of(y.kind, y.atom if y.kind == "N" else form(y.atom))
        self.lp = info_of(lpkind, LPA if lpkind == "N" else form(LPA))
        self.pool = ld("pools", self.lp)
        self.total, self.last = F(self.pool, "total_lp"), F(self.pool, "last_update_ts")
        asm = [isok(v) if k == "T" else neg(isok(v)) for a, k in ((LPA, lpkind), (x.atom, x.kind)) for v in [call("addr_validate", a)]]
        asm += [isok(self.pool.a[0]), lt(self.last, NOW), eq(INT(0), self.total) if empty else lt(INT(0), self.total), msg("bypass_upcoming_schedules") if bypass else neg(msg("bypass_upcoming_schedules"))]
        asm += [a for y in rewards for a in y.assume(self.last)]
        # rewards which ended have been distributed
        asm += [eq(INT(0), add(y.orphaned, y.collected(self.last))) for y in rewards if y.gone and empty]
        al = [((sym("msg"), "lp_token"), LPA), ((sym("msg"), "reward"), x.atom), ((self.pool, "rewards"), arr(*[y.term for y in rewards])), ((self.pool, "rewards_to_remove"), arr())]
        al.append((("range", "reward_schedules"), self.periods))
        self.assume = tuple(asm)
        self.v = ctx.view(INC, "execute", self.how, alias=tuple(al), assume=self.assume)

    def periods(self, key, rest):
        for y in self.rewards:
            if y.ext and key.op == "st" and len(key.a[2]) == 2 and bare(F(key, "0")) is LPA and F(key, "1") is y.info:
                ps = [(y.next, y.rps)] + [y.period(s) for s in y.sched]
                for i, p in enumerate(ps):
                    if begins(p[0], rest) == "after":
                        return arr(*[good(tup(*q)) for q in ps[i + 1:]])

    def outcomes(self):
        for h, stored, val in states(self):
            yield h, {k: [y for y in xs if y[1] is not y[0]] for k, xs in stored.items()}, val


def removal_case(r, tag, f):
    x, n = f.x, 0
    if x.gone:
        r.ob(f"{tag}/none", not f.v.oks or not list(f.outcomes()), "a reward which ended is not removed again", f.how)
        return
    type_, rps = x.now
    end = F(type_, "next_update_ts")
    ps = [(x.next, x.rps)] + [x.period(s) for s in x.sched]
    i = [p for p, _ in ps].index(end)
    back, t = add(mul(rps, ago(end, NOW)), add(x.orphaned, x.collected(f.last)) if f.empty else INT(0)), end
    for p, q in () if f.bypass else ps[i + 1:]:
        back, t = add(back, mul(q, ago(p, t))), p
    index = x.index if f.empty else add(x.index, div(add(x.orphaned, x.collected(f.last)), f.total))
    gone = {p for p, _ in (ps[i:i + 1] if f.bypass else ps[i:])}
    for h, stored, val in f.outcomes():
        n += 1
        r.ob(f"{tag}/owner", holds(h, is_eq(SENDER, F(CFG, "owner"))), "only the owner removes rewards", f.how)
        pools = stored.pop("pools", [])
        if not r.ob(f"{tag}/pool", len(pools) == 1 and pools[0][0] is f.pool.a[0] and pools[0][1].op == "good" and F(ok(pools[0][1]), "last_update_ts") is NOW, "the pool is stored, up to date", f.how):
            continue
        r.ob(f"{tag}/total", keeps(ok(pools[0][1]), "total_lp", f.pool), "the stake stays", f.how)
        for g, items in rewardlist(h, F(ok(pools[0][1]), "rewards")):
            others = [y for y in f.rewards if y is not x]
            if not r.ob(f"{tag}/list", items is not None and len(items) == sum(not y.gone for y in others) and not any(isof(F(e, "reward"), x) for e in items), "exactly this reward is gone", f.how):
                continue
            accrued(r, tag, f, g, items, stored, others)
            fin = stored.get("fin_rew_inds", [])
            r.ob(f"{tag}/index", any(ended_ok(g, *y, f, x, index) for y in fin), "its index is kept for those who have not claimed", f.how)
        keys = {k.a[1] for k, y in stored.pop("reward_schedules", []) if r.ob(f"{tag}/periods", y.op == "bad", "periods are only removed", f.how)}
        known = all(k.op == "st" and len(k.a[2]) == 3 and bare(F(k, "0")) is LPA and F(k, "1") is x.info for k in keys)
        left = {F(k, "2") for k in keys} if known else None
        r.ob(f"{tag}/removed", left is not None and gone - {end} <= left <= gone | {x.next}, "exactly the periods which are paid back are removed", f.how)
        r.ob(f"{tag}/frame", set(stored) <= {"fin_rew_inds"}, f"nothing else is stored: {sorted(stored)}", f.how)
        for k, ms in sends(f.v, h, val):
            if not r.ob(f"{tag}/messages", ms is not None and len(ms) <= 1, "one payment at most", f.how):
                continue
            if not ms:
                r.ob(f"{tag}/nothing", iszero(k, back), "nothing is sent only if nothing is left", f.how)
                continue
            q = pays(ms[0])
            good_ = len(q) == 1 and q[0].kind == ("native" if x.kind == "N" else "cw20") and q[0].asset is x.atom and strip(q[0].to) is msg("receiver") and guarded(ms[0])
            r.ob(f"{tag}/receiver", good_ and holds(k, lambda l: l is isok(call("addr_validate", msg("receiver")))), "the validated receiver is paid in the removed reward", f.how)
            r.ob(f"{tag}/amount", good_ and alike(k, q[0].amount, back), "exactly what the reward would still have paid, and its orphaned part, is paid back", f.how)
    r.ob(f"{tag}/possible", n > 0, "the call can succeed", f.how)


FORMS = (lambda a: call("unchecked", a), lambda a: ok(call("addr_validate", a)))


@prop("I06", 60, "what removing a reward and collecting orphaned ones store and pay, for every case of passed and later periods")
def removals(ctx, r):
    for cs in (("run",), ("next",), ("skipnext",), ("end",), ("skip",), ("int", "run", "end"), ("run", "next", "int")):
        for bypass, empty, more, lpkind, kind in product((False, True), (False, True), (False, True), "NT", "NT"):
            def make(form):
                rs = [Grown(f"r{i}", c, kind) for i, c in enumerate(cs)]
                x = next(y for y in rs if y.ext)
                if more and not x.gone:
                    x.sched += ("z",)
                return Removal(ctx, rs, x, lpkind, bypass, empty, form)

            f = make(FORMS[0])
            if not f.x.gone and not any(True for _ in f.outcomes()):
                f = make(FORMS[1])
            removal_case(r, f"{'+'.join(cs)}/{lpkind}{kind}{'/more' * more}{'/bypass' * bypass}{'/empty' * empty}", f)
    # collecting what nobody staked for
    f = farm(ctx, "Deposit.N", ("end", "end"), empty=True, lost=(True, True))
    keys = {y[0].a[1] for _, stored, _ in states(f) for y in stored.get("orphaned_rewards", []) if y[1] is not y[0]}
    keys = [[k for k in keys if contains(k, x.atom)] for x in f.rewards]
    if r.ob("ClaimOrphanedRewards/keys", all(len(k) == 1 for k in keys), "orphaned parts are stored under the reward's name", f.how):
        forms = [lambda a, k=k[0], x=x: subst(k, {x.atom: a}) for k, x in zip(keys, f.rewards)]
        for n in (0, 1, 3):
            for limit in (None, 1, 2, 200):
                orphans_case(r, ctx, f"ClaimOrphanedRewards/{n}/{'default' if limit is None else limit}", n, limit, forms)


def orphans_case(r, ctx, tag, n, limit, forms):
    toks = [(mk("atom", f"orphan{i}"), "NT"[i % 2], sym(f"orphan{i}.amount")) for i in range(n)]
    keys = [forms["NT".index(k)](a) for a, k, _ in toks]
    al = [(("range", "orphaned_rewards"), arr(*[good(tup(k, x)) for k, (_, _, x) in zip(keys, toks)])), ((sym("msg"), "limit"), BAD if limit is None else good(INT(limit)))]
    v = ctx.view(INC, "execute", "ClaimOrphanedRewards", alias=tuple(al))
    m, count = min(n, limit or n), 0
    for fs, val, end in v.oks:
        ks = sorted(end.store, key=lambda k: (k[0].id, k[1].id))
        for h, xs in cases(fs, *[end.store[k] for k in ks]):
            for g, ms in sends(v, h, val):
                count += 1
                r.ob(f"{tag}/owner", holds(g, is_eq(SENDER, F(CFG, "owner"))), "only the owner collects them", tag)
                r.ob(f"{tag}/taken", all(nsof(k[0]) == "orphaned_rewards" and x.op == "bad" for k, x in zip(ks, xs)) and {k[1] for k in ks} == set(keys[:m]), "exactly the first entries are removed, nothing else is stored", tag)
                if not r.ob(f"{tag}/messages", ms is not None, "the messages are known", tag):
                    continue
                got = {}
                for q in ms:
                    ps = pays(q)
                    if r.ob(f"{tag}/receiver", len(ps) == 1 and guarded(q) and strip(ps[0].to) is msg("receiver") and holds(g, lambda l: l is isok(call("addr_validate", msg("receiver")))), "each goes to the validated receiver on its own", tag):
                        got.setdefault((ps[0].asset, ps[0].kind), []).append(ps[0].amount)
                for (a, k, x) in toks[:m]:
                    paid_ = got.pop((a, "native" if k == "N" else "cw20"), [])
                    r.ob(f"{tag}/amount", paid_ == [x] or not paid_ and iszero(g, x), "each is paid in full, unless it is zero", tag)
                r.ob(f"{tag}/others", not got, "nothing else is paid", tag)
    r.ob(f"{tag}/possible", (count > 0) == (n > 0), "there must be something to collect", tag)


def feequery_case(r, ctx, tag, cs, which, kind, astro, new):
    """whether the fee is announced for the reward at position `which` of a pool (None: another one)"""
    for form in FORMS:
        rs = [Grown(f"r{i}", c, kind) for i, c in enumerate(cs)]
        for y in rs:
            y.info = info_of(kind, y.atom if kind == "N" else form(y.atom))
        a = mk("atom", "other") if which is None else rs[which].atom
        info = info_of(kind, a if kind == "N" else form(a))
        pool = ld("pools", info_of("N", LPA))
        v = call("addr_validate", a)
        asm = [isok(v) if kind == "T" else neg(isok(v)), neg(isok(call("addr_validate", LPA)))]
        asm += [neg(isok(pool.a[0]))] if new else [isok(pool.a[0]), lt(F(pool, "last_update_ts"), NOW), lt(INT(0), F(pool, "total_lp"))]
        asm += [z for y in rs for z in y.assume(F(pool, "last_update_ts"))]
        fake = Removal.__new__(Removal)
        fake.rewards = rs
        al = [((sym("msg"), "lp_token"), LPA), ((sym("msg"), "reward"), a), ((pool, "rewards"), arr(*[y.term for y in rs])), ((pool, "rewards_to_remove"), arr())]
        al += [(("range", "reward_schedules"), fake.periods), ((CFG, "astro_token"), info if astro else info_of("N", mk("atom", "astro")))]
        v = ctx.view(INC, "query", "IsFeeExpected", alias=tuple(al), assume=tuple(asm))
        out = [js(y) for fs, val, _ in v.oks for h in [plus(fs, *asm)] if h is not None for _, (y,) in cases(h, val)]
        want = not astro and not any(i == which and y.ext and not y.gone for i, y in enumerate(rs))
        if all(x is TRUE or x is FALSE for x in out):
            break
    r.ob(tag, out and all(x is (TRUE if want else FALSE) for x in out), "the fee is announced exactly for rewards which would be charged", "IsFeeExpected")


def checked(h, info):
    """an asset info is well formed: a token's address is valid, a denom has a possible length"""
    if any(l is isok(call("addr_validate", pay(info, "Token", "contract_addr"))) for l in h) or holds(h, lambda l: l is isok(call("addr_validate", pay(info, "Token", "contract_addr")))):
        return True
    tok, nat = plus(h, is_variant(info, "Token")), plus(h, is_variant(info, "NativeToken"))
    return (tok is None or holds(tok, lambda l: l is isok(call("addr_validate", pay(info, "Token", "contract_addr"))))) and (nat is None or denomok(nat, pay(info, "NativeToken", "denom")))


def denomok(h, d):
    n = call("len", d)
    ls = {x for l in alllits(h) for x in walk(l) if x.op == "len" and x.a[0] is d} | {n, mk("len", d)}
    return any(hle(h, INT(3), x) and hle(h, x, INT(128)) for x in ls)


@prop("I07", 40, "which settings, blocked tokens and pools are accepted, and that exactly the named ones change")
def administration(ctx, r):
    # settings
    v = ctx.view(INC, "execute", "UpdateConfig")
    fields = set(fields_of(ctx.prog, CONFIG))
    opts = {"astro_token", "vesting_contract", "generator_controller", "guardian", "incentivization_fee_info", "token_transfer_gas_limit"}
    optional = {"generator_controller", "guardian", "incentivization_fee_info", "token_transfer_gas_limit"}
    given_ = {n for _, n in alloptions(v)} | opts
    es = v.effects("config")
    r.ob("update/some", len(es) > 0, "an update stores something", v.where())
    for e, f in es:
        for h, (c,) in cases(f, e["val"]):
            r.ob("update/frame", not changed(c, CFG, fields - given_), "settings which cannot be named do not change", v.where(e))
            for x in sorted(given_):
                g, k = plus(h, isok(msg(x))), plus(h, neg(isok(msg(x))))
                for q, (t,) in cases(g, F(c, x)) if g is not None else ():
                    y = value(q, t) if x in optional else t
                    r.ob(f"update/{x}", strip(y) is strip(ok(msg(x))), f"{x} becomes what is given", v.where(e))
                    r.ob(f"update/{x}/valid", valid(q, x, ok(msg(x)), y), f"{x} is checked", v.where(e))
                for q, (t,) in cases(k, F(c, x)) if k is not None else ():
                    r.ob(f"update/{x}/kept", t is F(CFG, x), f"{x} stays unless it is named", v.where(e))
    v = ctx.view(INC, "instantiate")
    for e, f in v.effects("config"):
        for h, (c,) in cases(f, e["val"]):
            for x in ("owner", "factory", "vesting_contract"):
                r.ob(f"init/{x}", is_validated(F(c, x)) and strip(F(c, x)) is msg(x), f"{x} is the validated one given", v.where(e))
            r.ob("init/astro_token", F(c, "astro_token") is msg("astro_token") and checked(h, msg("astro_token")), "the token is checked", v.where(e))
            r.ob("init/zero", F(c, "astro_per_second") is INT(0) and F(c, "total_alloc_points") is INT(0), "nothing is emitted at first", v.where(e))
            for x in ("guardian", "incentivization_fee_info"):
                g, k = plus(h, isok(msg(x))), plus(h, neg(isok(msg(x))))
                for q, (t,) in cases(g, F(c, x)) if g is not None else ():
                    r.ob(f"init/{x}", strip(value(q, t)) is strip(ok(msg(x))) and valid(q, x, ok(msg(x)), value(q, t)), f"{x} is the validated one given", v.where(e))
                for q, (t,) in cases(k, F(c, x)) if k is not None else ():
                    r.ob(f"init/{x}/none", t.op == "bad" or isok(t) is FALSE or t is msg(x), f"{x} is none", v.where(e))
    ap = v.effects("active_pools")
    r.ob("init/pools", len(ap) == 1 and ap[0][0]["val"] is arr(), "no pool is active at first", v.where())
    # a new ASTRO token replaces the old one in the rewards of the active pools
    for cs in PLOTS:
        others_ = [neg(isok(msg(x))) for x in opts - {"astro_token"}]
        s = Season(ctx, "UpdateConfig", cs, assume=[isok(msg("astro_token"))] + others_)
        n = 0
        for h, stored, _ in s.outcomes():
            n += 1
            extra = {nsof(k.a[0]) for k in stored} - {"config", "pools"}
            r.ob("token/frame", not extra, "nothing but settings and pools is stored", "UpdateConfig")
            for p in s.pools:
                x = stored.get(p.info_.a[0])
                if p not in s.before:
                    r.ob("token/others", x is None, "pools without emissions stay as they are", "UpdateConfig")
                    continue
                if not r.ob("token/stored", x is not None and x.op == "good", "the active pools are stored", "UpdateConfig"):
                    continue
                r.ob("token/kept", keeps(ok(x), "total_lp", p.info_) and keeps(ok(x), "last_update_ts", p.info_), "stake and time stay", "UpdateConfig")
                for g, items in rewardlist(h, F(ok(x), "rewards")):
                    want = [st(RI, "", (("reward", y.type if y.ext else st(RT, "Int", (("0", ok(msg("astro_token"))),))), ("rps", y.rps), ("index", y.index), ("orphaned", y.orphaned))) for y in p.rewards]
                    r.ob("token/rewards", items is not None and len(items) == len(want) and all(all(F(a, k) is F(b, k) for k, _ in b.a[2]) for a, b in zip(items, want)), "only the token of the emissions changes", "UpdateConfig")
        r.ob("token/possible", n > 0, "the token can be changed", "UpdateConfig")
    # blocked tokens
    a, b = mk("atom", "t0"), mk("atom", "t1")
    for ka, kb in product("NT", "NT"):
        x, y = info_of(ka, a), info_of(kb, b)
        tag = f"blocked/{ka}{kb}"
        s = Season(ctx, "UpdateBlockedTokenslist", (("int",), ()), (((sym("msg"), "add"), arr(x)), ((sym("msg"), "remove"), arr(y))))
        n = 0
        for h, stored, _ in s.outcomes():
            n += 1
            r.ob(f"{tag}/astro", holds(h, lambda l: l.op == "not" and l.a[0].op == "eq" and F(CFG, "astro_token") in l.a[0].a and x in l.a[0].a), "ASTRO is not blocked", s.variant)
            mine = {k: z for k, z in stored.items() if nsof(k.a[0]) == "blocked_tokens"}
            put = [k for k, z in mine.items() if z.op == "good"]
            out = [k for k, z in mine.items() if z.op == "bad"]
            good_ = len(mine) == 2 and len(put) == len(out) == 1 and contains(put[0].a[1], a) and contains(out[0].a[1], b)
            if r.ob(f"{tag}/listed", good_, "exactly the named tokens are added and removed", s.variant):
                r.ob(f"{tag}/before", holds(h, lambda l: l is neg(isok(put[0]))) and holds(h, lambda l: l is isok(out[0])), "a token is blocked and unblocked once", s.variant)
        r.ob(f"{tag}/possible", n > 0, "the list can be changed", s.variant)
        for al in ((arr(x, x), arr()), (arr(), arr(x, x)), (arr(x), arr(x))):
            s = Season(ctx, "UpdateBlockedTokenslist", (("int",), ()), (((sym("msg"), "add"), al[0]), ((sym("msg"), "remove"), al[1])))
            r.ob(f"{tag}/twice", not list(s.outcomes()), "a token is named once", s.variant)
    # pools which get emissions
    for kinds in ("NT", "TN"):
        al = (((sym("msg"), "pools"), arr(tup(mk("atom", "lp1"), sym("y")), tup(mk("atom", "lp0"), sym("x")))),)
        vs = [call("addr_validate", mk("atom", f"lp{i}")) for i in range(2)]
        s = Season(ctx, "SetupPools", (("int",), ("int",), ()), al, [isok(z) for z, k in zip(vs, kinds) if k == "T"], kinds=kinds + "N")
        n = 0
        for h, _, _ in s.outcomes():
            n += 1
            for p, points in ((s.pools[0], sym("x")), (s.pools[1], sym("y"))):
                tag = f"setup/{kinds}/{p.n}"
                r.ob(f"{tag}/points", holds(h, lambda l: l is neg(eq(INT(0), points))), "points are not zero", s.variant)
                r.ob(f"{tag}/registered", lpknown(h, p.key), "the pair is known to the factory", s.variant)
                r.ob(f"{tag}/blocked", holds(h, lambda l: l.op == "not" and l.a[0].op == "isok" and l.a[0].a[0].op == "may" and nsof(l.a[0].a[0].a[0]) == "blocked_tokens" and contains(l.a[0].a[0].a[1], p.atom)), "none of its tokens is blocked", s.variant)
                r.ob(f"{tag}/type", holds(h, lambda l: l.op == "not" and l.a[0].op == "any" and any(q.op == "ok" and blockedtypes(q) for q in walk(l)) and contains(l, p.atom)), "its type is not blocked", s.variant)
        r.ob(f"setup/{kinds}/possible", n > 0, "pools can be set up", s.variant)


def alloptions(v):
    """the optional fields of the message a view asks about"""
    out = set()
    for f, _, end in v.oks:
        for l in alllits(f):
            x = l.a[0] if l.op == "not" else l
            if x.op == "isok" and x.a[0].op == "fld" and x.a[0].a[0] is sym("msg"):
                out.add((x.a[0].a[0], x.a[0].a[1]))
    return out


def valid(h, x, given, y):
    """what is stored for a setting has been checked"""
    if x in ("vesting_contract", "generator_controller", "guardian", "owner", "factory"):
        return is_validated(y)
    if x == "astro_token":
        return checked(h, given)
    if x == "incentivization_fee_info":
        to = F(given, "fee_receiver")
        return holds(h, lambda l: l.op == "isok" and l.a[0].op == "call" and l.a[0].a[0] == "addr_validate" and strip(l.a[0].a[1]) is strip(to)) and denomok(h, F(F(given, "fee"), "denom"))
    if x == "token_transfer_gas_limit":
        return hle(h, INT(400000), given) and hle(h, given, INT(1500000))
    return False
