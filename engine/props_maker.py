"""The fee collector: its settings, its swaps and how it distributes ASTRO."""
from fractions import Fraction
from itertools import product

from check import prop
from props_incentives import checked
from props_pair import *
from rat import ge0
from rules import *

MAKER = "astroport_maker"
C = ld("config")
ASTRO, STAKING, GOV, SECOND, DEV, DEVASSET, FACTORY = (mk("atom", n) for n in ("astro", "staking", "governance", "second", "dev", "devasset", "factory"))
SECONDCFG, DEVCFG, LIMITED = ("astroport::maker::" + n for n in ("SecondReceiverConfig", "DevFundConfig", "AssetWithLimit"))


def holding(kind, atom):
    """the contract's balance"""
    if kind == "N":
        return F(ok(call("balance", SELF, atom)), "amount")
    return F(ok(call("query", atom, st("cw20::query::Cw20QueryMsg", "Balance", (("address", SELF),)))), "balance")


def answered(kind, atom):
    return isok(holding(kind, atom).a[0].a[0])


def pooled(t, a, b):
    """t is the address of the factory's pair of the two assets"""
    t = strip(t)
    if t.op != "fld" or t.a[1] != "contract_addr" or not isquery(t.a[0], FACTORY, "Pair"):
        return False
    infos = F(qcall(t.a[0])[1], "asset_infos")
    return infos.op == "arr" and len(infos.a) == 2 and set(infos.a) == {a, b}


def swap_of(h, m, a, b, amount):
    """the message swaps exactly this amount of a for b in the factory's pool within the spread limit, for the contract itself"""
    ps = pays(m)
    if len(ps) != 1 or not req(simp(h, ps[0].amount, True), simp(h, amount, True)):
        return False
    p = ps[0]
    if a.a[1] == "NativeToken":
        con, x, _ = m.exec()
        offer = F(x, "offer_asset")
        good_ = p.kind == "funds" and p.asset is F(a, "denom") and x.op == "st" and x.a[1] == "Swap" and F(offer, "info") is a and req(simp(h, F(offer, "amount"), True), simp(h, amount, True))
        to = con
    else:
        x = p.extra.a[0] if p.extra is not None and p.extra.op == "json" else p.extra
        good_ = p.kind == "cw20send" and p.asset is F(a, "contract_addr") and x is not None and x.op == "st" and x.a[1] == "Swap" and m.exec()[2] is arr()
        to = p.to
    if not good_ or not pooled(to, a, b):
        return False
    ask = F(x, "ask_asset_info")
    return (ask.op == "bad" or ask is good(b)) and F(x, "belief_price").op == "bad" and F(x, "max_spread") is good(F(C, "max_spread")) and F(x, "to").op == "bad"


def nought(h, amt):
    """the facts say that the amount is zero"""

    def p(l):
        if l.op != "eq" or INT(0) not in l.a:
            return False
        return all(req(simp(g, x, True), simp(g, amt, True)) for g, (x,) in cases(h, simp(h, l.a[0] if l.a[1] is INT(0) else l.a[1])))
    return holds(h, p)


class Share:
    """a distribution of the balance, with the given receivers"""

    def __init__(self, ctx, variant, kind, devkind, second, gov, dev, staking, mode):
        self.kind, self.mode, self.info, self.devinfo = kind, mode, info_of(kind, ASTRO), info_of(devkind, DEVASSET)
        self.second, self.gov, self.dev, self.staking = second, gov, dev, staking
        self.bal, self.rem, self.last = holding(kind, ASTRO), F(C, "remainder_reward"), F(C, "last_distribution_block")
        self.cut, self.share, self.percent = sym("cut"), sym("share"), F(C, "governance_percent")
        al = [((C, "astro_token"), self.info), ((C, "factory_contract"), FACTORY)]
        al.append(((C, "staking_contract"), good(STAKING) if staking else BAD))
        al.append(((C, "governance_contract"), good(GOV) if gov else BAD))
        al.append(((C, "second_receiver_cfg"), good(st(SECONDCFG, "", (("second_fee_receiver", SECOND), ("second_receiver_cut", self.cut)))) if second else BAD))
        al.append(((C, "dev_fund_conf"), good(st(DEVCFG, "", (("address", DEV), ("asset_info", self.devinfo), ("share", self.share)))) if dev else BAD))
        if variant == "Collect":
            al.append(((sym("msg"), "assets"), arr()))
        on = F(C, "rewards_enabled")
        self.assume = [answered(kind, ASTRO)]
        self.assume += {"off": [neg(on)], "all": [on, eq(INT(0), self.rem)], "part": [on, lt(INT(0), self.rem), lt(self.last, HEIGHT), neg(eq(INT(0), sub(HEIGHT, self.last)))], "again": [on, lt(INT(0), self.rem), eq(self.last, HEIGHT), eq(INT(0), sub(HEIGHT, self.last))]}[mode]
        self.v = ctx.view(MAKER, "execute", variant, alias=tuple(al), assume=tuple(self.assume))

    def released(self):
        """the part of what was collected before the upgrade which is distributed now"""
        return tmin(self.rem, self.due())

    def due(self):
        return mul(sub(HEIGHT, self.last), div(F(C, "pre_upgrade_astro_amount"), F(C, "pre_upgrade_blocks")))

    def either(self):
        return [lt(self.due(), self.rem)] if self.mode == "part" else []

    def outcomes(self):
        for f, val, end in self.v.oks:
            for h, ms in sends(self.v, f, val, *self.assume):
                ks = [k for k in end.store if nsof(k[0]) == "config"]
                if not ks:
                    yield h, ms, C
                    continue
                for g, (c,) in cases(h, end.store[ks[0]]):
                    yield g, ms, ok(c)


def share_case(r, tag, s, fields):
    n = 0
    for h0, ms, c in s.outcomes():
        for h1 in split(h0, *s.either()):
            n += shared(r, tag, s, fields, h1, ms, c)
    if s.mode in ("all", "part"):
        r.ob(f"{tag}/some", n > 0, "a distribution can pay", s.v.where())


def shared(r, tag, s, fields, h0, ms, c):
    n = 0
    second, gov, dev, rest = shares(s, simp(h0, s.released(), True))
    zeros = shares(s, s.released()) + ((second, gov, dev, rest) if s.mode == "part" else ())
    for h in split(h0, eq(INT(0), s.bal), *[eq(INT(0), x) for x, on in zip(zeros, (s.second, s.gov, s.dev, s.staking) * 2) if on and s.mode in ("all", "part")]):
        if not r.ob(f"{tag}/known", ms is not None, "the messages are known", s.v.where()):
            continue
        if holds(h, lit(eq(INT(0), s.bal))) or s.mode in ("off", "again"):
            r.ob(f"{tag}/nothing", not ms, "nothing is paid", s.v.where())
            want = {"pre_upgrade_astro_amount": s.bal, "remainder_reward": s.bal} if s.mode == "off" and not holds(h, lit(eq(INT(0), s.bal))) else {}
        else:
            n += bool(ms)
            due = [(SECOND, second)] * s.second + [(GOV, gov)] * s.gov + [(STAKING, rest)] * s.staking
            left = list(ms)
            for who, x in due:
                mine = [m for m in left if any(p.to is who for p in pays(m))]
                if mine:
                    left.remove(mine[0])
                    r.ob(f"{tag}/paid", transfer(h, mine[0], s, who, x), f"{show(who, 2)} gets its share", s.v.where())
                else:
                    r.ob(f"{tag}/due", nought(h, x), f"{show(who, 2)} gets its share unless that is zero", s.v.where())
            if s.dev:
                mine = [m for m in left if swap_of(h, m, s.info, s.devinfo, dev)]
                if mine:
                    left.remove(mine[0])
                    r.ob(f"{tag}/reply", answers_to(mine[0]), "the swap for the dev fund is answered when it succeeded", s.v.where())
                else:
                    r.ob(f"{tag}/due", nought(h, dev), "the dev fund's share is swapped", s.v.where())
            r.ob(f"{tag}/else", not left, "nothing else is sent", s.v.where())
            want = {"remainder_reward": sub(s.rem, s.released()), "last_distribution_block": HEIGHT} if s.mode == "part" else {}
        r.ob(f"{tag}/frame", not changed(c, C, fields - set(want)), "no other setting changes", s.v.where())
        for k, x in want.items():
            r.ob(f"{tag}/{k}", req(simp(h, F(c, k), True), simp(h, x, True)), f"{k} is updated", s.v.where())
    return n


def shares(s, released):
    """what the second receiver, the governance, the dev fund and the stakers get"""
    amount = s.bal
    if s.mode == "part":
        amount = add(sub(s.bal, s.rem), released)
    second = div(mul(amount, s.cut), INT(100)) if s.second else INT(0)
    gov = div(mul(sub(amount, second), s.percent), INT(100)) if s.gov else INT(0)
    dev = mul(amount, s.share) if s.dev else INT(0)
    return second, gov, dev, sub(sub(sub(amount, second), gov), dev)


def transfer(h, m, s, who, x):
    """the message gives exactly x ASTRO to who"""
    ps = pays(m)
    return len(ps) == 1 and ps[0].asset is ASTRO and ps[0].to is who and ps[0].kind in (("native", "funds") if s.kind == "N" else ("cw20", "cw20send")) and req(simp(h, ps[0].amount, True), simp(h, x, True))


REPLY = []


def answers_to(m):
    sub_ = m.sub
    on, id_ = F(sub_, "reply_on"), F(sub_, "id")
    REPLY.append(id_)
    return on.op == "st" and on.a[1] in ("Success", "Always") and id_.op == "int"


@prop("M03", 500, "maker: with every combination of receivers and of native and token ASTRO, a distribution's messages and the stored remainder against the split")
def distribution(ctx, r):
    REPLY.clear()
    fields = set(fields_of(ctx.prog, "astroport::maker::Config"))
    for i, (second, gov, dev, staking) in enumerate(product((0, 1), repeat=4)):
        if not gov and not staking:
            continue
        for mode in ("off", "all", "part", "again"):
            for k in "NT":
                for variant in ("DistributeAstro", "Collect"):
                    d = "NT"[(i + (k == "T") + (variant == "Collect")) % 2]
                    tag = f"{variant}/{k}{d}/" + "".join(n for n, x in zip("sgdx", (second, gov, dev, staking)) if x) + f"/{mode}"
                    share_case(r, tag, Share(ctx, variant, k, d, second, gov, dev, staking, mode), fields)
    # the dev fund
    for k in "NT":
        info = info_of(k, DEVASSET)
        v = ctx.view(MAKER, "reply", alias=(((C, "dev_fund_conf"), good(st(DEVCFG, "", (("address", DEV), ("asset_info", info), ("share", sym("share")))))),), assume=(answered(k, DEVASSET),))
        n = 0
        for h, ms in outcomes(v, answered(k, DEVASSET)):
            n += 1
            r.ob(f"reply/{k}/id", bool(REPLY) and all(holds(h, is_eq(msg("id"), i)) for i in set(REPLY)), "only the answer to the swap pays the dev fund", v.where())
            ps = [p for m in ms or [] for p in pays(m)]
            r.ob(f"reply/{k}/paid", ms is not None and len(ms) == 1 and len(ps) == 1 and ps[0].kind == ("native" if k == "N" else "cw20") and ps[0].asset is DEVASSET and ps[0].to is DEV and simp(h, ps[0].amount) is holding(k, DEVASSET), "the dev fund gets what there is of its asset", v.where())
        r.ob(f"reply/{k}/some", n > 0, "the dev fund is paid", v.where())
        r.ob(f"reply/{k}/frame", not v.effects(), "nothing is stored", v.where())


SEIZE = ld("seize_config")
RECEIVER = mk("atom", "receiver")


def limited(kind, atom, limit):
    return st(LIMITED, "", (("info", info_of(kind, atom)), ("limit", limit)))


@prop("M04", 60, "maker: seizing lists of up to two assets with and without limits against lists of up to two seizable ones: who is paid what")
def seizure(ctx, r):
    names = [mk("atom", f"seized{i}") for i in range(3)]
    for kinds in ("NN", "NT", "TN", "TT"):
        has = [info_of(k, a) for k, a in zip(kinds, names)]
        for lims in product((0, 1), repeat=2):
            for which in ((), (0,), (1,), (0, 1), (2,), (0, 2), (2, 1)):
                for known in ((), has[:1], has):
                    items = [(kinds[i % 2], names[i], good(sym(f"limit{i}")) if lims[i % 2] else BAD) for i in which]
                    asm = [answered(k, a) for k, a, _ in items]
                    v = ctx.view(MAKER, "execute", "Seize", alias=(((sym("msg"), "assets"), arr(*[limited(*x) for x in items])), ((SEIZE, "seizable_assets"), arr(*known)), ((SEIZE, "receiver"), RECEIVER)), assume=tuple(asm))
                    tag = f"{kinds}/{''.join(map(str, lims))}/{''.join(map(str, which))}/{len(known)}"
                    fine = which and all(i < len(known) for i in which)
                    outs = outcomes(v, *asm)
                    if not fine:
                        r.ob(f"{tag}/refused", not outs, "assets which are not listed are not seized", v.where())
                        continue
                    r.ob(f"{tag}/some", any(ms for _, ms in outs), "listed assets are seized", v.where())
                    r.ob(f"{tag}/frame", not v.effects(), "nothing is stored", v.where())
                    for h0, ms in outs:
                        if not r.ob(f"{tag}/known", ms is not None, "the messages are known", v.where()):
                            continue
                        lims_ = [(holding(k, a), ok(l)) for k, a, l in items if l is not BAD]
                        for h in split(h0, *[lt(l, b) for b, l in lims_], *[eq(INT(0), x) for k, a, l in items for x in ([holding(k, a)] if l is BAD else [holding(k, a), ok(l)])]):
                            if any(holds(h, lit(lt(l, b))) and holds(h, lit(eq(INT(0), b))) for b, l in lims_):
                                continue  # nothing is less than nothing
                            h = settle(h)
                            if refine(h) is None:
                                continue
                            due = [(k, a, ok(l) if l is not BAD and holds(h, lit(lt(ok(l), holding(k, a)))) else holding(k, a)) for k, a, l in items]
                            left = list(ms)
                            for k, a, x in due:
                                mine = [m for m in left if any(p.asset is a for p in pays(m))]
                                if mine:
                                    left.remove(mine[0])
                                    p = pays(mine[0])
                                    r.ob(f"{tag}/paid", len(p) == 1 and p[0].kind == ("native" if k == "N" else "cw20") and p[0].to is RECEIVER and simp(h, p[0].amount, True) is x, "the receiver gets the balance, up to the limit", v.where())
                                else:
                                    r.ob(f"{tag}/due", nought(h, x) or any(l is not BAD and a2 is a and nought(h, ok(l)) for _, a2, l in items), "an asset is left out only if there is nothing to seize", v.where())
                            r.ob(f"{tag}/else", not left, "nothing else is sent", v.where())


BRIDGE = [mk("atom", f"bridge{i}") for i in range(4)]
DEFAULT = mk("atom", "default")
LASTTS = ld("last_collect_ts")


def known_pool(h, a, b):
    """the factory knows a pair of a and b"""

    def p(l):
        q = qcall(ok(l.a[0])) if l.op == "isok" else None
        return q is not None and q[0] is FACTORY and q[1].op == "st" and q[1].a[1] == "Pair" and (lambda x: x.op == "arr" and set(x.a) == {a, b})(F(q[1], "asset_infos"))
    return holds(h, p)


def unknown_pool(h, a, b):
    """the factory knows no pair of a and b"""
    return any(l.op == "not" and l.a[0].op == "isok" and known_pool(frozenset([l.a[0]]), a, b) for l in h)


def poolqs(v):
    """the questions which pools the factory knows"""
    out = set()
    for f, val, _ in v.oks:
        for t in [val, *f]:
            for l in walk_deep(t) if t.op != "or" else [y for x in alllits(frozenset([t])) for y in walk_deep(x)]:
                if l.op == "call" and l.a[0] == "query" and l.a[1] is FACTORY and l.a[2].op == "st" and l.a[2].a[1] == "Pair":
                    out.add(isok(l))
    return sorted(out, key=lambda x: x.id)


class Sale:
    """fees to be swapped: for each (kind, atom, limit?) where its own bridge leads"""

    def __init__(self, ctx, variant, items, stored, default, kind="N", astro_too=False, cooldown=False, full=True):
        self.variant, self.items, self.default, self.stored = variant, items, default, stored
        self.astro = info_of(kind, ASTRO)
        self.infos = [info_of(k, a) for k, a, _ in items]
        self.cool = cooldown
        al = [((C, "astro_token"), self.astro), ((C, "factory_contract"), FACTORY), ((C, "default_bridge"), good(default) if default is not None else BAD), (("load", "bridges"), self.bridge)]
        al.append(((C, "collect_cooldown"), good(sym("cooldown")) if cooldown else BAD))
        if variant == "Collect":
            xs = [limited(k, a, good(sym(f"limit{i}")) if l else BAD) for i, (k, a, l) in enumerate(items)]
            if astro_too:
                xs.insert(0, limited(kind, ASTRO, BAD))
        else:
            xs = list(self.infos)
        al.append(((sym("msg"), "assets"), arr(*xs)))
        self.full = full
        self.assume = tuple(answered(k, a) for k, a, _ in items)
        # either there is something of every asset, or there is no ASTRO yet
        self.assume += tuple(neg(eq(INT(0), holding(k, a))) for k, a, _ in items) if full else (answered(kind, ASTRO), eq(INT(0), holding(kind, ASTRO)))
        self.v = ctx.view(MAKER, "execute", variant, alias=tuple(al), assume=self.assume)
        self.qs = poolqs(self.v)

    def bridge(self, key):
        for info, to in self.stored.items():
            if contains(key, info.a[2][0][1]):
                return good(to)
        return BAD

    def reaches(self, h, a, b, fuel=6):
        """a can be swapped for b and from there on for ASTRO"""
        if fuel == 0 or not known_pool(h, a, b):
            return False
        nxt = self.stored.get(b)
        return b is self.astro or known_pool(h, b, self.astro) or nxt is not None and self.reaches(h, b, nxt, fuel - 1)


def sale_case(r, tag, s, depths):
    n = 0
    w = s.v.where()
    for h0, ms in outcomes(s.v, *s.assume):
        if not r.ob(f"{tag}/known", ms is not None, "the messages are known", w):
            continue
        xs = []
        for i, (k, a, l) in enumerate(s.items):
            xs.append((holding(k, a), ok(good(sym(f"limit{i}"))) if l and s.variant == "Collect" else None))
        qs = [eq(INT(0), b) for b, _ in xs] + [q for b, l in xs if l is not None for q in (eq(INT(0), l), lt(l, b))]
        for h in split(h0, *qs, *s.qs):
            if any(l is not None and holds(h, lit(lt(l, b))) and holds(h, lit(eq(INT(0), b))) for b, l in xs):
                continue  # nothing is less than nothing
            h = settle(h)
            if h is None or refine(h) is None:
                continue
            if any(l is not None and holds(h, lit(eq(INT(0), b))) and holds(h, lit(neg(eq(INT(0), tmin(b, l))))) for b, l in xs):
                continue  # nothing is less than nothing
            left, via, sold = list(ms), [], 0
            for (b, l), info in zip(xs, s.infos):
                empty = holds(h, lit(eq(INT(0), b)))
                x = l if l is not None and holds(h, lit(lt(l, b))) and holds(h, lit(neg(eq(INT(0), l)))) else b
                own = s.stored.get(info)
                targets = [own] if own is not None else [t for t in (s.default, s.astro) if t is not None and t is not info]
                mine = [(m, t) for t in targets for m in left if swap_of(h, m, info, t, x)]
                if empty:
                    r.ob(f"{tag}/empty", not mine, "what there is nothing of is not swapped", w)
                    continue
                if not r.ob(f"{tag}/swapped", len(mine) == 1, "an asset is swapped once, in full or up to its limit, in the factory's pool, within the spread limit", w):
                    continue
                m, t = mine[0]
                left.remove(m)
                sold += 1
                if t is not s.astro:
                    via.append(t)
                r.ob(f"{tag}/pool", known_pool(h, info, t), "the factory knows the pool", w)
                if own is not None:
                    r.ob(f"{tag}/leads", s.reaches(h, info, t), "a bridge leads to ASTRO", w)
                elif t is s.astro and s.default is not None and s.default is not info:
                    r.ob(f"{tag}/default", unknown_pool(h, info, s.default), "the default bridge comes first", w)
            n += sold > 0
            if not sold:
                r.ob(f"{tag}/idle", s.variant == "Collect" or not s.items, "a swap of bridges swaps something", w)
                continue
            # what follows
            if not r.ob(f"{tag}/next", len(left) == 1 and left[0].kind == "WasmMsg::Execute" and left[0] is ms[-1], "one message follows the swaps", w):
                continue
            con, x, funds = left[0].exec()
            if via:
                named = F(x, "assets") if x.op == "st" and x.a[1] == "SwapBridgeAssets" else None
                r.ob(f"{tag}/bridges", con is SELF and funds is arr() and named is not None and all(y.op == "arr" and len(y.a) == len(set(y.a)) and set(y.a) == set(via) for _, (y,) in cases(h, named)), "what was bought on the way is swapped on, each once", w)
                d = F(x, "depth") if named is not None else None
                r.ob(f"{tag}/depth", d is not None and (d is add(msg("depth"), INT(1)) if s.variant != "Collect" else d.op == "int"), "the depth is counted", w)
                if s.variant == "Collect" and d is not None and d.op == "int":
                    depths.add(d.a[0])
            else:
                r.ob(f"{tag}/distributed", con is SELF and funds is arr() and x.op == "st" and x.a[1] == "DistributeAstro", "ASTRO is distributed when everything is swapped", w)
            if s.variant != "Collect":
                r.ob(f"{tag}/bound", hle(h, msg("depth"), INT(8)), "the depth is limited", w)
    r.ob(f"{tag}/some", n > 0, "fees can be swapped", w)
    for f, val, end in s.v.oks:
        for h, _ in sends(s.v, f, val, *s.assume):
            for k, x in end.store.items():
                if nsof(k[0]) == "config":
                    r.ob(f"{tag}/config", all(known_ok(g, ok(y), s) for g, (y,) in cases(h, x)), "swaps change no setting", w)
            if s.variant == "Collect":
                ts = [x for k, x in end.store.items() if nsof(k[0]) == "last_collect_ts"]
                r.ob(f"{tag}/time", bool(ts) and all(ok(y) is NOW for _, (y,) in cases(h, ts[0])), "the time of the collection is kept", w)
                if s.cool:
                    r.ob(f"{tag}/cooldown", hle(h, add(LASTTS, sym("cooldown")), NOW), "a collection waits until the cooldown is over", w)


def known_ok(h, c, s):
    """the settings stay as they were, unless nothing was swapped and ASTRO was distributed"""
    return c is C or plus(h, *[neg(eq(INT(0), holding(k, a))) for k, a, _ in s.items]) is None


@prop("M02", 500, "maker: collecting up to two assets over every kind of route: the swaps and what follows them")
def swaps_(ctx, r):
    a = [mk("atom", f"fee{i}") for i in range(2)]
    b = [info_of("NTNT"[i], x) for i, x in enumerate(BRIDGE)]
    depths = set()
    for variant, full in product(("Collect", "SwapBridgeAssets"), (True, False)):
        for ak in "NT":
            astro = info_of(ak, ASTRO)
            for k, l in product("NT", (0, 1)):
                if l and variant != "Collect":
                    continue
                info = info_of(k, a[0])
                for name, stored in (("none", {}), ("astro", {info: astro}), ("one", {info: b[0]}), ("two", {info: b[0], b[0]: b[1]}), ("three", {info: b[1], b[1]: b[2], b[2]: b[3]}), ("loop", {info: b[0], b[0]: b[1], b[1]: b[0]})):
                    for dn, d in (("", None), ("d", info_of("N", DEFAULT)), ("self", info)):
                        if dn == "self" and name != "none" or dn and name not in ("none", "one"):
                            continue
                        tag = f"{variant}/{'full' if full else 'some'}/{ak}/{k}{l}/{name}{dn}"
                        sale_case(r, tag, Sale(ctx, variant, [(k, a[0], l)], stored, d, ak, astro_too=l, cooldown=not l, full=full), depths)
        for kinds in ("NN", "NT", "TN", "TT"):
            i0, i1 = (info_of(k, x) for k, x in zip(kinds, a))
            for name, stored in (("none", {}), ("same", {i0: b[0], i1: b[0]}), ("other", {i0: b[0], i1: b[1]}), ("mixed", {i0: b[0]}), ("into", {i0: i1})):
                for dn, d in (("", None), ("d", info_of("T", DEFAULT)))[: 1 + full]:
                    tag = f"{variant}/{'full' if full else 'some'}/N/{kinds}/{name}{dn}"
                    sale_case(r, tag, Sale(ctx, variant, [(k, x, variant == "Collect") for k, x in zip(kinds, a)], stored, d, full=full), depths)
    # an asset is named once
    for k in "NT":
        v = Sale(ctx, "Collect", [(k, a[0], 1), (k, a[0], 0)], {}, None).v
        r.ob(f"Collect/{k}/twice", not v.oks, "an asset which is named twice is refused", v.where())
    r.ob("depths", bool(depths) and max(depths) < 8, "the first depth is below the limit", "")


OPTIONS = ("factory_contract", "staking_contract", "governance_contract", "governance_percent", "basic_asset", "max_spread", "second_receiver_params", "collect_cooldown", "astro_token", "dev_fund_config")
STORED = {"basic_asset": "default_bridge", "second_receiver_params": "second_receiver_cfg", "dev_fund_config": "dev_fund_conf"}
MOST = call("from_str", STR("0.5"))


def options(ctx):
    return {n for name, fs in ctx.prog.adts["astroport::maker::ExecuteMsg"]["variants"] if name == "UpdateConfig" for n, _ in fs}


def plusall(f, lits):
    for l in lits:
        f = plus(f, l)
        if f is None:
            return None
    return f


def positive(h, t):
    return holds(h, lambda l: l is neg(eq(INT(0), t))) or hle(h, INT(0), t, True) or hle(h, INT(1), t)


def spread_ok(h, t):
    half = [x for l in alllits(h) for x in walk(l) if x.op == "call" and x.a[0] == "from_str" and x.a[1] is STR("0.5")]
    return positive(h, t) and (any(hle(h, t, y) for x in half for y in (x, ok(x))) or hle(h, t, div(INT(1), INT(2))))


def percent_ok(h, t, staked):
    """at most the whole, and the whole if there is no staking contract"""
    if t.op == "int":
        good_ = t.a[0] <= 100
    else:
        good_ = hle(h, t, INT(100))
    k = plus(h, neg(isok(staked))) if staked.op not in ("good", "bad") else h if staked.op == "bad" else None
    return good_ and (k is None or req(simp(k, t), INT(100)) or holds(k, is_eq(t, INT(100))))


def constant(t):
    """the value of a constant term"""
    if t.op == "int":
        return Fraction(t.a[0])
    if t.op == "call" and t.a[0] == "one":
        return Fraction(1)
    if t.op in ("div", "mul"):
        x, y = map(constant, t.a)
        return None if x is None or y is None else x / y if t.op == "div" else x * y
    return None


def cut_ok(h, x, params):
    y = ok(params)
    cut = F(y, "second_receiver_cut")
    return x.op == "good" and is_validated(F(ok(x), "second_fee_receiver")) and strip(F(ok(x), "second_fee_receiver")) is strip(F(y, "second_fee_receiver")) and F(ok(x), "second_receiver_cut") is cut and positive(h, cut) and hle(h, cut, INT(50))


def setting_ok(r, h, x, t, given, c, tag, where):
    """t is what setting x becomes where the message gives `given`"""
    def ob(cond, what):
        r.ob(f"{tag}/{x}", cond, what, where)
    if x in ("factory_contract", "staking_contract"):
        if x == "staking_contract":
            ob(t.op == "good", "there is a staking contract")
            t = ok(t)
        ob(is_validated(t) and strip(t) is strip(given), f"{x} becomes the validated one given")
    elif x == "governance_contract":
        for g, (y,) in cases(h, t):
            k = plus(g, is_variant(given, "Set"))
            if k is not None:
                z = simp(k, y)
                ob(z.op == "good" and is_validated(ok(z)) and strip(ok(z)) is strip(pay(given, "Set", "0")), "governance becomes the validated one given")
            k = plus(g, is_variant(given, "Remove"))
            if k is not None:
                ob(simp(k, y).op == "bad" and holds(k, lambda l: l is isok(F(C, "staking_contract"))), "governance is removed only where there is a staking contract")
    elif x == "governance_percent":
        ob(t is given and percent_ok(h, t, F(c, "staking_contract")), "governance gets at most everything, and everything without a staking contract")
    elif x == "max_spread":
        ob(t is given and spread_ok(h, t), "the spread limit is positive and at most a half")
    elif x in ("basic_asset", "astro_token"):
        ob((t is given or (t.op == "good" and ok(t) is given) or t is msg(x)) and checked(h, given), f"{x} becomes the checked one given")
    elif x == "second_receiver_params":
        ob(cut_ok(h, t, good(given)), "the second receiver is validated and gets between 1 and 50 per cent")
    elif x == "collect_cooldown":
        ob((t is msg(x) or t is good(given)) and hle(h, INT(30), given) and hle(h, given, INT(600)), "the cooldown is between 30 and 600 seconds")
    else:
        raise ValueError(x)


@prop("M01", 80, "maker: what instantiation and each update of settings, bridges and seizable assets store, and under which conditions")
def makersettings(ctx, r):
    fields = set(fields_of(ctx.prog, "astroport::maker::Config"))
    # one setting at a time
    r.ob("update/options", options(ctx) <= set(OPTIONS), "every setting of the message is known", "UpdateConfig")
    for x in OPTIONS:
        asm = tuple(isok(msg(y)) if y == x else neg(isok(msg(y))) for y in OPTIONS)
        al = ()
        sets = [None]
        if x == "dev_fund_config":
            sets = [BAD] + [good(st("astroport::maker::DevFundConfig", "", (("address", sym("devaddr")), ("asset_info", info_of(k, DEVASSET)), ("share", sym("share"))))) for k in "NT"]
        for i, s in enumerate(sets):
            if s is not None:
                al = ((ok(msg(x)), "set"), s), ((C, "factory_contract"), FACTORY), ((C, "astro_token"), info_of("N", ASTRO))
            v = ctx.view(MAKER, "execute", "UpdateConfig", alias=al, assume=asm)
            n = 0
            for f, _, end in v.oks:
                h0 = plusall(f, asm)
                if h0 is None:
                    continue
                for key, val in end.store.items():
                    r.ob(f"update/{x}/frame", nsof(key[0]) == "config", "nothing but the settings is stored", v.where())
                    for h, (c,) in cases(h0, val):
                        if c.op != "good":
                            continue
                        c = ok(c)
                        n += 1
                        y = STORED.get(x, x)
                        r.ob(f"update/{x}/frame", not changed(c, C, fields - {y}), "the other settings stay", v.where())
                        if x != "dev_fund_config":
                            setting_ok(r, h, x, simp(h, F(c, y)), ok(msg(x)), c, "update", v.where())
                            continue
                        t = simp(h, F(c, y))
                        if s is BAD:
                            r.ob("update/dev/none", t.op == "bad", "the dev fund is removed", v.where())
                        else:
                            share = sym("share")
                            r.ob("update/dev", t is s, "the dev fund is what is given", v.where())
                            r.ob("update/dev/address", holds(h, lambda l: l is isok(call("addr_validate", sym("devaddr")))), "its address is valid", v.where())
                            r.ob("update/dev/share", positive(h, share) and (hle(h, share, call("one", STR("Decimal"))) or hle(h, share, INT(1))), "its share is positive and at most everything", v.where())
                            r.ob("update/dev/pool", known_pool(h, info_of("N", ASTRO), F(ok(s), "asset_info")), "ASTRO can be swapped into its asset", v.where())
            r.ob(f"update/{x}/possible", n > 0, "the setting can be changed", v.where())
    # at first
    v = ctx.view(MAKER, "instantiate")
    n = 0
    for f, _, end in v.oks:
        for key, val in end.store.items():
            ns = nsof(key[0])
            for h, (c,) in cases(f, val):
                if c.op != "good":
                    continue
                c = ok(c)
                if ns == "config":
                    n += 1
                    for x in ("owner", "factory_contract"):
                        r.ob(f"init/{x}", is_validated(F(c, x)) and strip(F(c, x)) is msg(x), f"{x} is the validated one given", v.where())
                    for x in ("staking_contract", "governance_contract"):
                        for g, (t,) in cases(h, F(c, x)):
                            k = plus(g, isok(msg(x)))
                            if k is not None:
                                y = simp(k, t)
                                r.ob(f"init/{x}", is_validated(ok(y)) and strip(ok(y)) is strip(ok(msg(x))), f"{x} is the validated one given", v.where())
                            k = plus(g, neg(isok(msg(x))))
                            if k is not None:
                                y = simp(k, t)
                                r.ob(f"init/{x}/none", y.op == "bad" or holds(k, lambda l: l is neg(isok(y))), f"there is no {x} unless it is given", v.where())
                    k = plus(plus(h, neg(isok(msg("staking_contract")))) or h, neg(isok(msg("governance_contract"))))
                    if holds(k or frozenset(), lambda l: l is neg(isok(msg("staking_contract")))) and k is not None:
                        r.ob("init/receiver", False, "there is a staking or a governance contract", v.where())
                    else:
                        r.ob("init/receiver", True, "there is a staking or a governance contract", v.where())
                    for g, (t,) in cases(h, F(c, "governance_percent")):
                        for q in split(g, isok(msg("governance_percent")), isok(msg("staking_contract"))):
                            y = simp(q, t)
                            want = ok(msg("governance_percent")) if holds(q, lambda l: l is isok(msg("governance_percent"))) else INT(0)
                            r.ob("init/percent", (y is want or req(simp(q, y), simp(q, want))) and percent_ok(q, y, msg("staking_contract")), "governance gets at most everything, and everything without a staking contract", v.where())
                    for g, (t,) in cases(h, F(c, "max_spread")):
                        for q in split(g, isok(msg("max_spread"))):
                            y = simp(q, t)
                            if holds(q, lambda l: l is isok(msg("max_spread"))):
                                r.ob("init/spread", y is ok(msg("max_spread")) and spread_ok(q, y), "the spread limit is positive and at most a half", v.where())
                            else:
                                r.ob("init/spread/default", constant(y) is not None and 0 < constant(y) <= Fraction(1, 2), "the default spread limit is positive and at most a half", v.where())
                    r.ob("init/astro_token", F(c, "astro_token") is msg("astro_token") and checked(h, msg("astro_token")), "the token is checked", v.where())
                    k = plus(h, isok(msg("default_bridge")))
                    r.ob("init/default_bridge", F(c, "default_bridge") is msg("default_bridge") and (k is None or checked(k, ok(msg("default_bridge")))), "the default bridge is checked", v.where())
                    k = plus(h, isok(msg("collect_cooldown")))
                    w = ok(msg("collect_cooldown"))
                    r.ob("init/cooldown", F(c, "collect_cooldown") is msg("collect_cooldown") and (k is None or hle(k, INT(30), w) and hle(k, w, INT(600))), "the cooldown is between 30 and 600 seconds", v.where())
                    for g, (t,) in cases(h, F(c, "second_receiver_cfg")):
                        for q in split(g, isok(msg("second_receiver_params"))):
                            y = simp(q, t)
                            if holds(q, lambda l: l is isok(msg("second_receiver_params"))):
                                r.ob("init/second", cut_ok(q, y, msg("second_receiver_params")), "the second receiver is validated and gets between 1 and 50 per cent", v.where())
                            else:
                                r.ob("init/second/none", y.op == "bad", "there is no second receiver unless it is given", v.where())
                    r.ob("init/rest", F(c, "rewards_enabled") is FALSE and F(c, "dev_fund_conf").op == "bad" and all(F(c, x) is INT(0) for x in ("remainder_reward", "pre_upgrade_astro_amount", "pre_upgrade_blocks", "last_distribution_block")), "nothing is reserved or enabled at first", v.where())
                elif ns == "seize_config":
                    r.ob("init/seize", F(c, "seizable_assets") is arr(), "nothing can be seized at first", v.where())
                elif ns == "last_collect_ts":
                    r.ob("init/last", c is NOW, "the cooldown starts now", v.where())
                elif ns == "contract_info":
                    pass
                else:
                    r.ob("init/frame", False, "nothing else is stored", v.where())
    r.ob("init/possible", n > 0, "the contract can be set up", v.where())
    enabling(ctx, r, fields)
    seizable(ctx, r)
    bridging(ctx, r)


def enabling(ctx, r, fields):
    v = ctx.view(MAKER, "execute", "EnableRewards")
    n = 0
    for e, f in v.effects():
        r.ob("enable/frame", nsof(e["item"]) == "config", "nothing but the settings is stored", v.where(e))
        for h, (c,) in cases(f, e["val"]):
            n += 1
            r.ob("enable/once", holds(h, lambda l: l is neg(F(C, "rewards_enabled"))) or holds(h, is_eq(F(C, "rewards_enabled"), FALSE)), "rewards are enabled once", v.where(e))
            r.ob("enable/blocks", positive(h, msg("blocks")), "the reserve is released over at least one block", v.where(e))
            r.ob("enable/stored", F(c, "rewards_enabled") is TRUE and F(c, "pre_upgrade_blocks") is msg("blocks") and F(c, "last_distribution_block") is HEIGHT, "the release starts now, over the given blocks", v.where(e))
            r.ob("enable/kept", not changed(c, C, fields - {"rewards_enabled", "pre_upgrade_blocks", "last_distribution_block"}), "the other settings stay", v.where(e))
    r.ob("enable/possible", n > 0, "rewards can be enabled", v.where())


def seizable(ctx, r):
    a = [info_of(k, mk("atom", f"seized{i}")) for i, k in enumerate("NT")]
    for given in ((), a[:1], a):
        v = ctx.view(MAKER, "execute", "UpdateSeizeConfig", alias=(((sym("msg"), "seizable_assets"), arr(*given)),))
        n = 0
        for e, f in v.effects():
            r.ob("seize/frame", nsof(e["item"]) == "seize_config", "nothing but what can be seized is stored", v.where(e))
            for h0, (c,) in cases(f, e["val"]):
                for h in split(h0, isok(msg("receiver"))):
                    n += 1
                    to = simp(h, F(c, "receiver"))
                    if holds(h, lambda l: l is isok(msg("receiver"))):
                        r.ob("seize/receiver", is_validated(to) and strip(to) is strip(ok(msg("receiver"))), "the receiver is the validated one given", v.where(e))
                    else:
                        r.ob("seize/receiver/kept", to is F(SEIZE, "receiver"), "the receiver stays unless it is named", v.where(e))
                    got = simp(h, F(c, "seizable_assets"))
                    r.ob(f"seize/{len(given)}", got is arr(*given), "exactly the given assets can be seized", v.where(e))
        r.ob(f"seize/{len(given)}/possible", n > 0, "the list can be changed", v.where())


def bridging(ctx, r):
    for ka, kb in product("NT", "NT"):
        x, y, z = info_of(ka, mk("atom", "fee0")), info_of(kb, BRIDGE[0]), info_of("N", BRIDGE[1])
        astro = info_of("N", ASTRO)
        base = [((C, "factory_contract"), FACTORY), ((C, "astro_token"), astro)]
        for name, to, chain in (("astro", astro, ()), ("direct", y, ()), ("via", y, (z,)), ("dead", y, ()), ("self", x, ())):
            link = (lambda key, b=BRIDGE[0], chain=chain: good(chain[0]) if chain and contains(key, b) else BAD)
            al = base + [((sym("msg"), "add"), good(arr(tup(x, to)))), ((sym("msg"), "remove"), good(arr(info_of("N", BRIDGE[2])))), (("load", "bridges"), link)]
            v = ctx.view(MAKER, "execute", "UpdateBridges", alias=tuple(al))
            n = 0
            tag = f"bridges/{ka}{kb}/{name}"
            for f, _, end in v.oks:
                for h in split(f, *poolqs(v)):
                    n += 1
                    if name == "self":
                        continue
                    leads = to is astro or known_pool(h, to, astro) or (chain and known_pool(h, to, z) and known_pool(h, z, astro))
                    r.ob(f"{tag}/pool", known_pool(h, x, to), "there is a pool for a bridge", v.where())
                    r.ob(f"{tag}/leads", leads, "a bridge leads to ASTRO through known pools", v.where())
                    put = {strip(k[1]): val for k, val in end.store.items()}
                    r.ob(f"{tag}/frame", all(nsof(k[0]) == "bridges" for k in end.store) and len(put) == 2, "only the named bridges change", v.where())
                    r.ob(f"{tag}/stored", any(val is good(to) for k, val in put.items() if contains(k, mk("atom", "fee0"))), "the bridge is stored for the asset", v.where())
                    r.ob(f"{tag}/removed", any(val.op == "bad" for k, val in put.items() if contains(k, BRIDGE[2])), "the named bridge is removed", v.where())
            r.ob(f"{tag}/possible", (n > 0) == (name != "self"), "an asset is not its own bridge; other bridges can be set", v.where())
