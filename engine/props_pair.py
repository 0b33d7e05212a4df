"""Pair contracts: swaps, liquidity, prices. Each entry point is analysed once per shape of the pool (which assets are
native coins and which are tokens, which one is offered), with the amounts, reserves, fees and settings left symbolic."""
from check import prop
from fractions import Fraction
from rat import atoms, ge0, rat, req, samesign, teq
from rules import *
import terms

CFG = ld("config")
AI = "astroport::asset::AssetInfo"
FEE_Q = (F(CFG, "factory_addr"), F(CFG, "pair_info", "pair_type"))

NUM = (  # numeric procedures kept uninterpreted: only what they are given and how their results are used matters here
    "astroport_pcl_common::math::calc_d",
    "astroport_pcl_common::math::calc_y",
    "astroport_pcl_common::math::get_xcp",
    "astroport_pcl_common::state::PoolParams::fee",
    "astroport_pcl_common::state::PoolState::update_price",
    "astroport_pcl_common::state::PoolState::get_amp_gamma",
    "astroport_pair_stable::math::calc_y",
    "astroport_pair_stable::math::compute_d",
    "astroport_pair_stable::utils::compute_current_amp",
)


def sym(n):
    return mk("sym", n)


class Shape:
    """a pool of the given kinds (N native coin, T token) seen through one entry point"""

    def __init__(self, ctx, c, kinds, extra=(), opaque=None):
        self.ctx, self.c, self.kinds, self.n, self.opaque = ctx, c, kinds, len(kinds), opaque or NUM
        self.atoms = [mk("atom", f"asset{i}") for i in range(self.n)]
        self.infos = [info_of(k, a) for k, a in zip(kinds, self.atoms)]
        self.got = {}  # coins which have already arrived when the contract runs
        al = [((F(CFG, "pair_info"), "asset_infos"), arr(*self.infos)), ((F(CFG, "pair_info"), "contract_addr"), SELF)]
        precs = [st("tuple", "", (("0", a), ("1", sym(f"prec{i}")))) for i, a in enumerate(self.atoms)]
        al.append((("range", "precisions"), arr(*[good(tup(a, sym(f"prec{i}"))) for i, a in enumerate(self.atoms)])))
        cums = []
        for i in range(self.n):
            for j in range(self.n):
                if i != j:
                    cums.append(tup(self.infos[i], self.infos[j], sym(f"cum{i}{j}")))
        al.append(((CFG, "cumulative_prices"), arr(*cums)))
        self.alias = al + list(extra)

    def run(self, ename, variant, extra=()):
        v = self.ctx.view(self.c, ename, variant, alias=tuple(self.alias) + tuple(extra), opaque=self.opaque)
        return v

    # ------------------------------------------------------------ terms of the pool
    def reserve(self, i):
        return sym(f"R{i}")

    def raw(self, i, t):
        """t is the contract's balance of asset i as the chain answers it now"""
        if t.op != "fld" or t.a[0].op != "ok" or t.a[0].a[0].op != "call":
            return False
        q = t.a[0].a[0]
        if q.a[0] == "balance":
            return self.kinds[i] == "N" and strip(q.a[1]) is SELF and q.a[2] is self.atoms[i] and t.a[1] == "amount"
        return self.kinds[i] == "T" and t.a[1] == "balance" and isquery(t.a[0], self.atoms[i], "Balance") and strip(F(qcall(t.a[0])[1], "address")) is SELF

    def answers(self, v):
        """the tokens of the pool answer balance queries"""
        out = set()
        for f, val, _ in v.oks:
            for l in list(alllits(f)) + [val]:
                for x in walk_deep(l):
                    if x.op == "call" and x.a[0] == "query" and any(self.raw(i, F(ok(x), "balance")) for i in range(self.n)):
                        out.add(isok(x))
        return sorted(out, key=lambda x: x.id)

    def norm(self, t):
        """reserves, fees and precisions by their names"""
        m = {}
        for x in walk(t):
            if x in m:
                continue
            if x.op == "fld":
                for i in range(self.n):
                    if self.raw(i, x):
                        m[x] = add(self.reserve(i), self.got[i]) if i in self.got else self.reserve(i)
                for n, s in (("total_fee_bps", "total"), ("maker_fee_bps", "maker"), ("fee_address", "fee_address")):
                    if qfield(x, n, FEE_Q[0], "FeeInfo", pair_type=FEE_Q[1]):
                        m[x] = sym(s)
                if x is F(CFG, "fee_share"):
                    m[x] = sym("fee_share")
            if x.op == "ok" and isload(x, "precisions"):
                for i in range(self.n):
                    if x is ld("precisions", self.atoms[i]):
                        m[x] = sym(f"prec{i}")
        return subst(t, m) if m else t

    def normfacts(self, fs):
        return frozenset(self.normlit(l) for l in fs)

    def normlit(self, l):
        if l.op == "or":
            return mk("or", frozenset(self.normfacts(d) for d in l.a[0]))
        return self.norm(l)


def info_of(k, a):
    return st(AI, "NativeToken", (("denom", a),)) if k == "N" else st(AI, "Token", (("contract_addr", a),))


def tup(*xs):
    return terms.tup(*xs)


HOOK = ok(call("from_json", msg("0", "msg")))


class Swap:
    """a swap of asset i of a pool of the given kinds; None of the amounts, fees, reserves or options is fixed"""

    def __init__(self, ctx, c, kinds, i, ask=None, opaque=None):
        sh = self.sh = Shape(ctx, c, kinds, opaque=opaque)
        self.i, self.j = i, (ask if ask is not None else 1 - i)
        self.native = kinds[i] == "N"
        if self.native:
            self.X, self.trader = msg("offer_asset", "amount"), SENDER
            extra = [((msg("offer_asset"), "info"), sh.infos[i])]
            self.assume = ()
            opt = lambda n: msg(n)
            entry_ = "Swap"
        else:
            self.X, self.trader = msg("0", "amount"), msg("0", "sender")
            extra = [((INFO, "sender"), sh.atoms[i])]
            self.assume = (is_variant(HOOK, "Swap"),)
            opt = lambda n: pay(HOOK, "Swap", n)
            entry_ = "Receive"
        self.to, self.belief, self.max_spread, self.ask_info = opt("to"), opt("belief_price"), opt("max_spread"), opt("ask_asset_info")
        if ask is not None and self.native:
            extra.append(((sym("msg"), "ask_asset_info"), good(sh.infos[ask])))
        elif sh.n > 2:
            self.assume += (isok(self.ask_info),)
        sh.got = {i: self.X}
        self.v = sh.run("execute", entry_, extra)
        self.assume += tuple(sh.answers(self.v))

    def outcomes(self):
        return outcomes(self.v, *self.assume)

    def norm(self, h, t):
        return self.sh.norm(simp(h, t))


XYK, TAX, STABLE, PCL, TRANS = "astroport_pair", "astroport_pair_xyk_sale_tax", "astroport_pair_stable", "astroport_pair_concentrated", "astroport_pair_transmuter"
CURVES = (XYK, TAX, STABLE, PCL)
TWO = ("NN", "NT", "TN", "TT")
SHARE = sym("fee_share")
BPS = INT(10000)


def calls(t, name):
    """the calls of a function kept uninterpreted inside a term"""
    return sorted({x for x in walk_deep(t) if x.op == "call" and isinstance(x.a[0], str) and x.a[0].rsplit("::", 1)[-1] == name}, key=lambda x: x.id)


def vanish(sw, h, *ts):
    """the terms with the fee rates which are zero under h left out"""
    m = {}
    for x in (sym("total"), sym("maker")):
        if holds(h, lambda l: l.op == "eq" and INT(0) in l.a and any(req(sw.sh.norm(y), div(x, k)) for y in l.a for k in (INT(1), BPS))):
            m[x] = INT(0)
    return [subst(t, m) if m else t for t in ts]


def agree(sw, h, a, e):
    """the amounts are the same under h"""
    a, e = vanish(sw, h, a, e)
    return req(a, e)


def zero(sw, h, amt):
    """predicate: the literal says that amt is zero"""
    amt = vanish(sw, h, amt)[0]

    def p(l):
        if l.op != "eq" or INT(0) not in l.a:
            return False
        o = l.a[0] if l.a[1] is INT(0) else l.a[1]
        return all(req(vanish(sw, h, sw.norm(g, x))[0], amt) for g, (x,) in cases(h, simp(h, o)))

    return (lambda l: True) if req(amt, INT(0)) else p


def dec(i, x):
    """an amount of asset i in whole units"""
    return div(x, call("pow", INT(10), sym(f"prec{i}")))


def taxes(sw):
    """the pool's tax entry for the offered asset"""
    return call("mapget", F(CFG, "tax_configs", "0"), sw.sh.atoms[sw.i])


class Quote:
    """what a swap must pay, as terms over the reserves before it (rounding aside)"""

    def __init__(self, sw, h, user):
        sh, i, j, X = sw.sh, sw.i, sw.j, sw.X
        R = [sh.reserve(k) for k in range(sh.n)]
        c = sh.c
        self.tax, self.curve_ok, self.known = None, True, True
        if c == TAX and plus(h, isok(taxes(sw))) is not None:
            self.tax = mul(X, F(ok(taxes(sw)), "tax_rate"))
            X = lin_sub(X, self.tax)
        self.X = X
        total = div(sym("total"), BPS)
        if c in (XYK, TAX):
            G = lin_sub(R[j], div(mul(R[i], R[j]), add(R[i], X)))
        elif c == STABLE:
            ys = calls(user, "calc_y")
            if not ys:
                self.known = False
                return
            y = ys[0]
            xp = arr(*[dec(k, R[k]) for k in range(sh.n)])
            args = list(y.a[1:])
            self.curve_ok = len(ys) == 1 and len(args) == 4 and req(args[1], add(dec(i, R[i]), dec(i, X))) and teq(args[2], xp) and args[3] is sym(f"prec{j}") and (not calls(args[0], "compute_current_amp") or contains(args[0], CFG))
            G = lin_sub(R[j], ok(y))
        else:
            ys, ds, fs = calls(user, "calc_y"), calls(user, "calc_d"), calls(user, "fee")
            if not ys or not ds or not fs:
                self.known = False
                return
            ps = F(CFG, "pool_state", "price_state", "price_scale")
            scale = lambda k, x: mul(x, ps) if k == 1 else x
            x0 = arr(*[scale(k, dec(k, R[k])) for k in range(2)])
            x1 = arr(*[scale(k, add(dec(k, R[k]), dec(k, X)) if k == i else dec(k, R[k])) for k in range(2)])
            y, d, f = ys[0], ds[0], fs[0]
            ag = d.a[2] if len(d.a) == 3 else None
            x2 = arr(*[ok(y) if k == j else x1.a[k] for k in range(2)])
            self.curve_ok = (
                len(ys) == len(ds) == len(fs) == 1
                and teq(d.a[1], x0)
                and y.a[1:2] != ()
                and teq(y.a[1], x1)
                and y.a[2] is ok(d)
                and y.a[3] is ag
                and y.a[4] is INT(j)
                and f.a[1] is F(CFG, "pool_params")
                and teq(f.a[2], x2)
            )
            g = lin_sub(x1.a[j], ok(y))
            if j == 1:
                g = div(g, ps)
            G = mul(g, call("pow", INT(10), sym(f"prec{j}")))
            total = f
        self.G = G
        self.C = mul(G, total)
        self.U = lin_sub(G, self.C)
        has = c != TAX and plus(h, isok(F(CFG, "fee_share"))) is not None
        self.has_share = has
        self.S = div(mul(self.C, F(ok(SHARE), "bps")), BPS) if has else INT(0)
        self.M = div(mul(lin_sub(self.C, self.S), sym("maker")), BPS)
        self.M0 = div(mul(self.C, sym("maker")), BPS)


def split(h, *xs):
    """h with each of the questions decided"""
    out = [h]
    for x in xs:
        out = [g for f in out for g in (plus(f, x), plus(f, neg(x))) if g is not None]
    return out


def feeaddr(sw):
    for f, _, _ in sw.v.oks:
        for l in alllits(f):
            for x in walk(l):
                if x.op == "fld" and qfield(x, "fee_address", FEE_Q[0], "FeeInfo", pair_type=FEE_Q[1]):
                    return x
    return None


def zeroqs(sw):
    """the questions the code asks about the commission, the fee share and the output being zero"""
    out = set()
    for f, _, _ in sw.v.oks:
        for l in alllits(f):
            if l.op == "not":
                l = l.a[0]
            if l.op == "eq" and INT(0) in l.a:
                t = sw.sh.norm(l)
                if any(x.op == "alt" for x in walk(t)) or contains(t, sym("maker")) or contains(t, sym("fee_address")):
                    continue
                if contains(t, SHARE) or contains(t, sym("total")) and not calls(t, "saturating_sub"):
                    out.add(l)
    return sorted(out, key=lambda x: x.id)[:4]


def swaps(ctx, c, shapes=TWO):
    for kinds in shapes:
        for i in (0, 1):
            yield f"{c[9:]}.{kinds}{i}", Swap(ctx, c, kinds, i)


@prop("D01", 60, "per pool shape and offered asset: a swap sends exactly (1) curve output minus commission to the receiver (the validated option, else the trader), (2) the fee share of the commission to its recipient, (3) the maker's part of the rest to the factory's fee address, (4) the sale tax where there is one; a missing payment is justified by a zero amount or an absent recipient")
def d01(ctx, r):
    for c in CURVES:
        for tag, sw in swaps(ctx, c):
            v, sh = sw.v, sw.sh
            os_ = sw.outcomes()
            r.ob(f"{tag}.swaps", len(os_) > 0, "no swap succeeds", v.where())
            fa = feeaddr(sw)
            q = [isok(F(CFG, "fee_share")), isok(sw.to)] + ([isok(fa)] if fa is not None else []) + ([isok(taxes(sw))] if c == TAX else [])
            q += zeroqs(sw)
            for h0, ms in os_:
                if not r.ob(f"{tag}.list", ms is not None and all(m.kind in ("BankMsg::Send", "WasmMsg::Execute") for m in ms), "a swap sends something else than transfers", v.where()):
                    continue
                ps = [pays(m) for m in ms]
                if not r.ob(f"{tag}.one", all(len(p) == 1 for p in ps), "a message of a swap moves none or several assets", v.where()):
                    continue
                ps = [p[0] for p in ps]
                for h in split(h0, *q):
                    swap_case(r, tag, sw, h, ps, fa)


def swap_case(r, tag, sw, h, ps, fa):
    v, sh, i, j = sw.v, sw.sh, sw.i, sw.j
    user, share, maker, tax, left = [], [], [], [], []
    for p in ps:
        cs = cases(h, simp(h, p.amount), simp(h, p.to), p.asset)
        if not r.ob(f"{tag}.decided", len(cs) >= 1, "a payment is not determined", v.where()):
            return
        kind = "native" if sh.kinds[j] == "N" else "cw20"
        for g, (a, to, asset) in cs:
            a = sw.norm(g, a)
            if c_tax(sw) and p.kind == "native" and to is F(ok(taxes(sw)), "tax_recipient"):
                tax.append((g, a, asset))
                continue
            r.ob(f"{tag}.asset", p.kind == kind and asset is sh.atoms[j], "a swap pays out another asset than the one asked for", v.where())
            if strip(to) is strip(ok(F(CFG, "fee_share"))) or to is F(ok(F(CFG, "fee_share")), "recipient"):
                share.append((g, a))
            elif fa is not None and strip(to) is strip(ok(fa)):
                maker.append((g, a))
            else:
                user.append((g, a, to))
    q = None
    for g, a, to in user:
        q = Quote(sw, g, a)
        if not q.known:
            r.note(f"{tag}: curve not recognised")
            continue
        given_ = plus(h, isok(sw.to)) is not None
        r.ob(f"{tag}.to", is_validated(to) and strip(to) is strip(ok(sw.to)) if given_ else strip(to) is strip(sw.trader), "the proceeds go to somebody else than the receiver named, or else the trader", v.where())
        r.ob(f"{tag}.curve", q.curve_ok, "the curve is not evaluated on the reserves before the swap", v.where())
        r.ob(f"{tag}.amount", agree(sw, g, a, q.U), "the trader does not get the curve's output minus the commission", v.where())
    r.ob(f"{tag}.once", len(user) <= 1 and len(share) <= 1 and len(maker) <= 1 and len(tax) <= 1, "a payment is made twice", v.where())
    if q is None:
        q = Quote(sw, h, sym("none"))
        if q.known:
            r.ob(f"{tag}.paid", holds(h, zero(sw, h, q.U)) or holds(h, zero(sw, h, q.G)), "a swap pays the trader nothing", v.where())
        else:
            zs = [x for l in alllits(h) if l.op == "eq" and INT(0) in l.a for x in l.a if x is not INT(0)]
            qs = [Quote(sw, h, sw.norm(h, z)) for z in zs]
            qs = [(z, x) for z, x in zip(zs, qs) if x.known]
            okz = [x for z, x in qs if x.curve_ok and (agree(sw, h, sw.norm(h, z), x.U) or agree(sw, h, sw.norm(h, z), x.G))]
            r.ob(f"{tag}.paid", okz or not calls(sym_all(h), "calc_y"), "a swap pays the trader nothing", v.where())
            if not okz:
                return
            q = okz[0]
    if not q.known:
        return
    if share:
        r.ob(f"{tag}.share", q.has_share and agree(sw, h, share[0][1], q.S), "the fee share is not its part of the commission", v.where())
    else:
        r.ob(f"{tag}.share", not q.has_share or holds(h, zero(sw, h, q.S)), "the fee share is not paid", v.where())
    nos = not share
    if maker:
        r.ob(f"{tag}.maker", agree(sw, h, maker[0][1], q.M) or nos and agree(sw, h, maker[0][1], q.M0), "the maker does not get its part of the commission left after the fee share", v.where())
    else:
        r.ob(f"{tag}.maker", fa is not None and plus(h, isok(fa)) is None or holds(h, zero(sw, h, q.M)) or nos and holds(h, zero(sw, h, q.M0)), "the maker's part is not paid", v.where())
    if tax:
        r.ob(f"{tag}.tax", q.tax is not None and agree(sw, h, tax[0][1], q.tax) and tax[0][2] is sh.atoms[i], "the tax paid is not its rate of the coins offered", v.where())
    else:
        r.ob(f"{tag}.tax", q.tax is None or holds(h, zero(sw, h, q.tax)), "the sale tax is not paid", v.where())


def c_tax(sw):
    return sw.sh.c == TAX and isinstance(sw, Swap)


def sym_all(h):
    return arr(*[l for l in alllits(h)])


class Provide:
    """a deposit of all the assets of a pool, listed in the given order"""

    def __init__(self, ctx, c, kinds, order=None, extra=(), opaque=None):
        sh = self.sh = Shape(ctx, c, kinds, opaque=opaque)
        order = order or range(sh.n)
        self.amt = [sym(f"amt{i}") for i in range(sh.n)]
        given_ = arr(*[st("astroport::asset::Asset", "", (("info", sh.infos[i]), ("amount", self.amt[i]))) for i in order])
        sh.got = {i: self.amt[i] for i in range(sh.n) if kinds[i] == "N"}
        self.v = sh.run("execute", "ProvideLiquidity", [((sym("msg"), "assets"), given_)] + list(extra))
        self.assume = tuple(sh.answers(self.v))
        self.receiver, self.stake, self.minlp = msg("receiver"), msg("auto_stake"), msg("min_lp_to_receive")

    def outcomes(self, *more):
        return outcomes(self.v, *self.assume, *more)

    def norm(self, h, t):
        return self.sh.norm(simp(h, t))


def sent(fs, denom, amount):
    """the coins sent with the call include exactly this amount of the denom"""
    if holds(fs, is_eq(ok(call("must_pay", INFO, denom)), amount)):
        return True
    cand = set()
    for l in alllits(fs):
        for x in walk(l):
            if x.op == "fld" and x.a[1] == "amount" and x.a[0].op != "sym" and contains(x.a[0], INFO):
                cand.add(x.a[0])
    for y in cand:
        if y.op in ("elem",):
            continue
        a, d = F(y, "amount"), F(y, "denom")
        if (a is amount or holds(fs, is_eq(a, amount))) and (d is denom or holds(fs, is_eq(d, denom))):
            return True
    return False


def nocoin(fs, denom):
    """no coin of the denom was sent"""
    if plus(fs, eq(F(elem(FUNDS), "denom"), denom), lt(INT(0), mklen(FUNDS))) is None:
        return True

    def none(l):
        if l.op != "not" or l.a[0].op != "isok" or l.a[0].a[0].op != "fnd":
            return False
        c, k = l.a[0].a[0].a
        return c is FUNDS and k is eq(F(elem(FUNDS), "denom"), denom)

    return holds(fs, none)


FOREIGN = mk("atom", "foreign")


@prop("D02", 100, "per pool shape: a swap of a native coin requires exactly the offered amount of that coin in the call's funds; a swap of a token is accepted only through that token's own transfer hook; assets outside the pool are refused; a deposit takes exactly the stated amount of each asset (coins sent, or TransferFrom the sender to the pool), in any order, and no other coin")
def d02(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[9:]
        for kinds in TWO:
            for i in (0, 1):
                tag = f"{n}.{kinds}{i}"
                if c == TRANS and "T" in kinds:
                    continue
                sw = Swap(ctx, c, kinds, i)
                if kinds[i] == "N":
                    os_ = sw.outcomes()
                    r.ob(f"{tag}.swaps", len(os_) > 0, "no swap succeeds", sw.v.where())
                    for h, _ in os_:
                        r.ob(f"{tag}.sent", sent(h, sw.sh.atoms[i], sw.X), "a swap does not require the coins offered to be sent", sw.v.where())
                else:
                    # the same token offered without a transfer
                    v = sw.sh.run("execute", "Swap", [((msg("offer_asset"), "info"), sw.sh.infos[i])])
                    r.ob(f"{tag}.direct", not v.oks, "a swap of a token succeeds without a transfer of it", v.where())
            tag = f"{n}.{kinds}"
            sh = Shape(ctx, c, kinds)
            for k in "NT":
                v = sh.run("execute", "Swap", [((msg("offer_asset"), "info"), info_of(k, FOREIGN))])
                r.ob(f"{tag}.foreign{k}", not v.oks, "a swap of an asset outside the pool succeeds", v.where())
            for i in (0, 1):  # an asset of the other kind which is spelled the same
                v = sh.run("execute", "Swap", [((msg("offer_asset"), "info"), info_of("NT"[sh.kinds[i] == "N"], sh.atoms[i]))])
                r.ob(f"{tag}.spelled{i}", not v.oks, "a swap of an asset which is only spelled like one of the pool succeeds", v.where())
            v = sh.run("execute", "Receive", [((INFO, "sender"), FOREIGN)])
            bad = [f for f, _, _ in v.oks if plus(f, is_variant(HOOK, "Swap")) is not None]
            r.ob(f"{tag}.hook", not bad, "a swap is accepted from the hook of a token outside the pool", v.where())
            for order in ((0, 1), (1, 0)):
                deposits(r, f"{tag}.{order[0]}", Provide(ctx, c, kinds, order))


def deposits(r, tag, pr):
    sh, v = pr.sh, pr.v
    if sh.c == TRANS and "T" in sh.kinds:
        return
    os_ = pr.outcomes()
    r.ob(f"{tag}.deposits", len(os_) > 0, "no deposit succeeds", v.where())
    for h, ms in os_:
        if not r.ob(f"{tag}.list", ms is not None, "the messages of a deposit are not determined", v.where()):
            continue
        for g in split(h, *[eq(x, INT(0)) for x in pr.amt], *found(h)):
            deposit_case(r, tag, pr, g, [p for m in ms for p in pays(m)])


def found(h):
    """the questions whether a coin is among those sent"""
    return sorted({l.a[0] if l.op == "not" else l for l in alllits(h) if any(x.op == "fnd" and x.a[0] is FUNDS for x in walk(l)) and (l.a[0] if l.op == "not" else l).op == "isok"}, key=lambda x: x.id)


def deposit_case(r, tag, pr, h, ps):
    sh, v = pr.sh, pr.v
    for i, k in enumerate(sh.kinds):
        a, x = sh.atoms[i], pr.amt[i]
        none = holds(h, is_eq(x, INT(0)))
        if k == "N":
            r.ob(f"{tag}.coin{i}", sent(h, a, x) or none and nocoin(h, a), "a deposit does not require its coins to be sent", v.where())
        else:
            ts = [p for p in ps if p.kind == "cw20from" and p.asset is a]
            r.ob(f"{tag}.token{i}", len(ts) <= 1 and (none or len(ts) == 1), "a token of a deposit is not taken exactly once", v.where())
            for p in ts:
                r.ob(f"{tag}.taken{i}", req(simp(h, p.amount), x) and strip(p.frm) is SENDER and strip(p.to) is SELF, "a deposit takes another amount, or not from the depositor to the pool", v.where())
    others_ = [p for p in ps if p.kind == "cw20from" and p.asset not in [a for a, k in zip(sh.atoms, sh.kinds) if k == "T"]]
    r.ob(f"{tag}.only", not others_, "a deposit takes a token outside the pool", v.where())
    r.ob(f"{tag}.extra", noforeign(h, sh), "coins outside the pool can be sent along with a deposit", v.where())


def noforeign(h, sh):
    """only coins of the pool were sent"""
    d = F(elem(FUNDS), "denom")
    every = [l.a[1] for l in h if l.op == "all" and l.a[0] is FUNDS]
    return plus(h, *every, lt(INT(0), mklen(FUNDS)), *[neg(eq(d, a)) for a, k in zip(sh.atoms, sh.kinds) if k == "N"]) is None


LP = F(CFG, "pair_info", "liquidity_token")
SUPPLY = F(ok(call("supply", LP)), "amount")


class Withdraw:
    """a withdrawal from a pool of the given kinds"""

    def __init__(self, ctx, c, kinds, assets=None, extra=()):
        sh = self.sh = Shape(ctx, c, kinds)
        self.v = sh.run("execute", "WithdrawLiquidity", [((sym("msg"), "assets"), arr() if assets is None else arr(*assets))] + list(extra))
        self.assume = tuple(sh.answers(self.v))

    def outcomes(self, *more):
        return outcomes(self.v, *self.assume, *more)

    def norm(self, h, t):
        return self.sh.norm(simp(h, t))


def lpsent(h):
    """the amounts of pool shares which came with the call"""
    out = []
    oc = ok(call("one_coin", INFO))
    if holds(h, is_eq(F(oc, "denom"), LP)):
        out.append(F(oc, "amount"))
    mp = ok(call("must_pay", INFO, LP))
    if any(mp in set(walk(l)) for l in alllits(h)):
        out.append(mp)
    return out


def less1(x):
    return [lin_sub(x, INT(1)), call("cosmwasm_std::math::uint128::Uint128::saturating_sub", x, INT(1))]


@prop("D05", 60, "per pool shape: every withdrawal takes LP coins of this pool sent with the call, burns exactly them from the pool, and sends the sender, for every asset, that part of the reserve (at most one unit of LP less, rounded down); nothing else leaves; apart from swaps and withdrawals no message of a pair pays out pool assets")
def d05(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[9:]
        for kinds in TWO:
            if c == TRANS and "T" in kinds:
                continue
            tag = f"{n}.{kinds}"
            w = Withdraw(ctx, c, kinds)
            sh, v = w.sh, w.v
            os_ = w.outcomes(neg(eq(INT(0), SUPPLY)))
            r.ob(f"{tag}.withdraws", len(os_) > 0, "no withdrawal succeeds", v.where())
            for h0, ms in os_:
                if not r.ob(f"{tag}.list", ms is not None, "the messages of a withdrawal are not determined", v.where()):
                    continue
                ps = [pays(m) for m in ms]
                r.ob(f"{tag}.known", all(len(p) == 1 and p[0].kind in ("native", "cw20", "burn") for p in ps), "a withdrawal sends something else than its assets and the burn", v.where())
                for h in split(h0, *zeroasked(w, h0)):
                    withdraw_case(r, tag, w, h, [p[0] for p in ps if p])
            one = st("astroport::asset::Asset", "", (("info", sh.infos[0]), ("amount", sym("want0"))))
            if c != TRANS:
                r.ob(f"{tag}.imbalanced", not Withdraw(ctx, c, kinds, [one]).v.oks, "an imbalanced withdrawal succeeds", v.where())
            hv = sh.run("execute", "Receive")
            if len(ctx.prog.adts.get("astroport::pair::Cw20HookMsg", {}).get("variants", [])) < 2:
                continue
            quiet = [f for f, _, _ in hv.oks if plus(f, neg(is_variant(HOOK, "Swap"))) is not None]
            r.ob(f"{tag}.hook", not quiet, "a token hook other than a swap succeeds", hv.where())
        leaks(ctx, r, c)


def zeroasked(w, h):
    """whether the payments asked about are zero"""
    return sorted({l.a[0] if l.op == "not" else l for l in alllits(h) if (x := l.a[0] if l.op == "not" else l).op == "eq" and INT(0) in x.a and contains(w.sh.norm(x), SUPPLY)}, key=lambda x: x.id)


def withdraw_case(r, tag, w, h, ps):
    sh, v = w.sh, w.v
    lp = lpsent(h)
    if not r.ob(f"{tag}.lp", bool(lp), "a withdrawal does not require this pool's LP coins", v.where()):
        return
    burns = [p for p in ps if p.kind == "burn"]
    r.ob(f"{tag}.burn", len(burns) == 1 and burns[0].asset is LP and any(req(w.norm(h, burns[0].amount), x) for x in lp) and burnfrom(burns[0]), "the LP coins received are not exactly burned", v.where())
    for i, k in enumerate(sh.kinds):
        mine = [p for p in ps if p.kind == ("native" if k == "N" else "cw20") and p.asset is sh.atoms[i]]
        want = [div(mul(x, sh.reserve(i)), SUPPLY) for y in lp for x in [y] + less1(y)]
        if not mine:
            r.ob(f"{tag}.paid{i}", any(holds(h, zerolit(w, h, x)) for x in want), "a withdrawal leaves out an asset", v.where())
            continue
        r.ob(f"{tag}.once{i}", len(mine) == 1, "an asset is paid twice", v.where())
        for g, (a, to) in cases(h, simp(h, mine[0].amount), simp(h, mine[0].to)):
            r.ob(f"{tag}.share{i}", any(req(w.norm(g, a), x) for x in want), "a withdrawal pays another part of the reserve than the part of the LP supply burned", v.where())
            r.ob(f"{tag}.to{i}", strip(to) is SENDER, "a withdrawal pays somebody else than the sender", v.where())
    r.ob(f"{tag}.only", all(p.kind == "burn" or p.asset in sh.atoms for p in ps), "a withdrawal pays something outside the pool", v.where())


def burnfrom(p):
    return p.frm is None or strip(p.frm) is SELF or p.frm is STR("")


def zerolit(w, h, amt):
    def p(l):
        if l.op != "eq" or INT(0) not in l.a:
            return False
        o = l.a[0] if l.a[1] is INT(0) else l.a[1]
        return req(w.norm(h, o), amt)

    return p


def leaks(ctx, r, c):
    """messages which move no pool asset out"""
    for ent in ("execute", "reply", "instantiate", "migrate", "sudo"):
        if not ctx.has(c, ent):
            continue
        for var in ctx.variants(c, ent):
            if ent == "execute" and var in ("Swap", "Receive", "WithdrawLiquidity"):
                continue
            v = ctx.view(c, ent, var)
            for m in v.msgs():
                r.ob(f"{c[9:]}.{ent}.{var}.keeps", all(p.kind in ("cw20from", "mint", "funds", "burn") and (p.kind != "funds" or p.asset is LP) for p in pays(m)), "pool assets leave without a swap or a withdrawal", v.where())


MIN_LP = INT(1000)


def one_of(req_, x, ys):
    return any(req_(x, y) for y in ys)


class Minted:
    """what a deposit must mint to the depositor, as a term over reserves, deposits and LP supply (rounding aside)"""

    def __init__(self, pr, h, got, first):
        sh = pr.sh
        m = {a: INT(0) for a in pr.amt if holds(h, is_eq(a, INT(0)))}
        A = [subst(a, m) for a in pr.amt]
        R = [sh.reserve(i) for i in range(sh.n)]
        self.known, self.args, got = True, True, subst(pr.norm(h, got), m)
        self.got, self.want = got, []
        if sh.c in (XYK, TAX):
            if first:
                roots = [x for x in walk(got) if x.op == "call" and "sqrt" in x.a[0]]
                self.known = len(roots) == 1
                if self.known:
                    self.args = req(roots[0].a[1], mul(A[0], A[1]))
                    self.want = [lin_sub(roots[0], MIN_LP)]
            else:
                x = [div(mul(A[i], SUPPLY), R[i]) for i in range(2)]
                self.want = [tmin(x[0], x[1]), tmin(x[1], x[0])]
                for k in (0, 1):
                    if hle(h, x[k], x[1 - k]):
                        self.want.append(x[k])
        elif sh.c == TRANS:
            nc = lambda i: ok(call("mapget", F(CFG, "norm_coeff"), sh.atoms[i]))
            self.want = [add(mul(A[0], nc(0)), mul(A[1], nc(1)))]
        elif sh.c == STABLE:
            ds = calls(got, "compute_d")
            pre = [dec(i, R[i]) for i in range(2)]
            post = [dec(i, add(R[i], A[i])) for i in range(2)]
            d0, d1 = [d for d in ds if perm(d.a[2], pre)], [d for d in ds if perm(d.a[2], post)]
            if not ds:
                self.known = False
                return
            self.args = len(ds) == (1 if first else 2) and bool(d1) and (first or bool(d0)) and len({d.a[1] for d in ds}) == 1
            if not self.args:
                return
            D1 = ok(d1[0])
            gp = call("pow", INT(10), F(CFG, "greatest_precision"))
            if first:
                self.want = [lin_sub(mul(D1, gp), MIN_LP)]
            else:
                D0 = ok(d0[0])
                self.want = [div(mul(SUPPLY, lin_sub(D1, D0)), D0)]
        else:
            ps = F(CFG, "pool_state", "price_state", "price_scale")
            sc = lambda k, x: mul(dec(k, x), ps) if k == 1 else dec(k, x)
            pre = [sc(i, R[i]) for i in range(2)]
            post = [sc(i, add(R[i], A[i])) for i in range(2)]
            ds = calls(got, "calc_d")
            d0, d1 = [d for d in ds if teq(d.a[1], arr(*pre))], [d for d in ds if teq(d.a[1], arr(*post))]
            if not ds:
                self.known = False
                return
            self.args = len(ds) == (1 if first else 2) and bool(d1) and (first or bool(d0)) and len({d.a[2] for d in ds}) == 1
            if not self.args:
                return
            D1 = ok(d1[0])
            if first:
                xs = calls(got, "get_xcp")
                self.known = len(xs) == 1
                if self.known:
                    self.args = xs[0].a[1] is D1 and xs[0].a[2] is ps
                    self.want = [lin_sub(mul(xs[0], INT(10**6)), MIN_LP)]
            else:
                D0 = ok(d0[0])
                S = div(mul(SUPPLY, lin_sub(D1, D0)), D0)
                fs = calls(got, "fee")
                self.known = len(fs) == 1
                if self.known:
                    f = fs[0]
                    x = [sc(i, A[i]) for i in range(2)]
                    self.args = f.a[1] is F(CFG, "pool_params") and teq(f.a[2], arr(*post))
                    t = add(x[0], x[1])
                    diffs = [y for y in walk(got) if y.op == "call" and y.a[0].rsplit("::", 1)[-1] in ("diff", "abs_diff")]
                    for y in diffs:
                        if any(req(y.a[1 + k], x[j]) and req(y.a[2 - k], div(t, INT(2))) for k in (0, 1) for j in (0, 1)):
                            self.want.append(mul(S, lin_sub(INT(1), div(mul(y, f), t))))
                    self.want += [mul(S, lin_sub(INT(1), div(mul(mul(k, lin_sub(x[0], div(t, INT(2)))), f), t))) for k in (INT(1), INT(-1))]

    def right(self):
        return any(req(self.got, w) or self.got is w for w in self.want)


def perm(t, xs):
    return teq(t, arr(*xs)) or teq(t, arr(*xs[::-1]))


@prop("D03", 100, "per pool shape and order of the assets: a deposit mints exactly one amount to the receiver (validated option, else the depositor) or, staked, to the pool with exactly that amount deposited into the factory's generator for the receiver; the amount is the invariant's growth over the pre-deposit reserves in proportion to the LP supply (first deposit: less 1000 locked in the pool); no other message mints")
def d03(ctx, r):
    for c in CURVES + (TRANS,):
        for kinds in TWO:
            if c == TRANS and "T" in kinds:
                continue
            for order in ((0, 1), (1, 0)):
                pr = Provide(ctx, c, kinds, order)
                tag = f"{c[9:]}.{kinds}.{order[0]}"
                staked = mk("isok", pr.stake)
                for first in (True, False):
                    if c == TRANS and first:
                        continue
                    z = eq(INT(0), SUPPLY)
                    os_ = pr.outcomes(*([z if first else neg(z)] if c != TRANS else []))
                    r.ob(f"{tag}.{first}.deposits", len(os_) > 0, "no deposit succeeds", pr.v.where())
                    for h0, ms in os_:
                        if not r.ob(f"{tag}.list", ms is not None, "the messages of a deposit are not determined", pr.v.where()):
                            continue
                        ps = [p for m in ms for p in pays(m)]
                        for h in split(h0, *[eq(x, INT(0)) for x in pr.amt], isok(pr.receiver), isok(pr.stake)):
                            mint_case(r, f"{tag}.{'first' if first else 'next'}", pr, h, ps, first)
        for ent in ("execute", "reply", "instantiate", "migrate", "sudo"):
            if not ctx.has(c, ent):
                continue
            for var in ctx.variants(c, ent):
                if (ent, var) == ("execute", "ProvideLiquidity"):
                    continue
                v = ctx.view(c, ent, var)
                r.ob(f"{c[9:]}.{ent}.{var}.mints", not [p for p in allpays(v) if p.kind == "mint"], "LP is minted without a deposit", v.where())


def mint_case(r, tag, pr, h, ps, first):
    sh, v = pr.sh, pr.v
    lock, user = [], []
    for p in ps:
        if p.kind != "mint":
            continue
        r.ob(f"{tag}.lp", p.asset is LP, "something else than the pool's LP is minted", v.where())
        a = pr.norm(h, p.amount)
        (lock if a.op == "int" else user).append(p)
    r.ob(f"{tag}.lock", len(lock) == (1 if first and sh.c != TRANS else 0) and all(simp(h, p.amount) is MIN_LP and strip(simp(h, mintto(p, h))) is SELF for p in lock), "the first deposit must lock the minimum liquidity in the pool, others must not", v.where())
    if not r.ob(f"{tag}.one", len(user) == 1, "a deposit does not mint exactly once", v.where()):
        return
    u = user[0]
    funds = [p for p in ps if p.kind == "funds"]
    rcv = pr.receiver
    who = (lambda t: is_validated(t) and strip(t) is strip(ok(rcv))) if plus(h, isok(rcv)) is not None else (lambda t: strip(t) is SENDER)
    to = simp(h, mintto(u, h))
    if funds:
        p = funds[0]
        x = p.extra
        sk = plus(h, isok(pr.stake)) is not None and plus(h, ok(pr.stake)) is not None
        r.ob(f"{tag}.stake", sk and len(funds) == 1 and strip(to) is SELF and p.asset is LP and p.amount is u.amount, "LP is staked unasked, or another amount is staked than minted", v.where())
        good_ = x is not None and x.op == "st" and x.a[1] == "Deposit"
        b = simp(h, ok(F(x, "recipient"))) if good_ else None
        r.ob(f"{tag}.staker", good_ and plus(h, isok(F(x, "recipient"))) is not None and who(b), "LP is staked for somebody else than the receiver", v.where())
        r.ob(f"{tag}.generator", p.to is not None and strip(p.to).op == "ok" and any(x.op == "fld" and x.a[1] == "generator_address" and contains(x, F(CFG, "factory_addr")) for x in walk(p.to)), "LP is staked elsewhere than in the factory's generator", v.where())
    else:
        r.ob(f"{tag}.to", who(to), "LP is minted for somebody else than the receiver, or else the depositor", v.where())
        r.ob(f"{tag}.unstaked", plus(h, isok(pr.stake), ok(pr.stake)) is None or sh.c == TRANS, "LP is not staked although asked for", v.where())
    if all(holds(h, is_eq(a, INT(0))) for a in pr.amt):
        return  # nothing is deposited: the invariant does not grow
    for g, a in hoisted(h, u.amount):
        m = Minted(pr, g, a, first)
        if not m.known:
            r.note(f"{tag}: amount not recognised")
            continue
        r.ob(f"{tag}.args", m.args, "the invariant is not taken at the reserves before and after the deposit", v.where())
        if m.args:
            r.ob(f"{tag}.amount", m.right(), "a deposit mints another amount than its share", v.where())


def mintto(p, h):
    """who gets freshly minted LP"""
    return p.to


def limitlit(sw, h, w):
    """predicate: the literal says w >= 0 under h"""

    def p(l):
        if (l.a[0] if l.op == "not" else l).op not in ("le", "lt"):
            return False
        return all(ge0(untaxed(sw, x), untaxed(sw, w)) or x.op in ("le", "lt") and req(lin_sub(x.a[1], x.a[0]), w) for _, x in hoisted(h, sw.norm(h, l), 8))

    return p


def untaxed(sw, t):
    """the tax rate (at most one) by the part it leaves"""
    return subst(t, {F(ok(taxes(sw)), "tax_rate"): lin_sub(INT(1), sym("kept"))}) if c_tax(sw) else t


HALF = div(INT(1), INT(2))


@prop("D04", 60, "a swap succeeds only if its spread over the reference price (or its shortfall from the price the trader believes in) is at most the trader's limit, which defaults to half a percent (5% in concentrated pools) and may not exceed 50%; deposits mint at least the minimum asked for; withdrawals pay at least the minimum of each asset asked for")
def d04(ctx, r):
    for c in CURVES:
        for tag, sw in swaps(ctx, c):
            v, sh, i, j = sw.v, sw.sh, sw.i, sw.j
            R = [sh.reserve(k) for k in range(2)]
            for h0, ms in sw.outcomes():
                for h in split(h0, isok(sw.max_spread), isok(sw.belief), *([isok(taxes(sw))] if c == TAX else [])):
                    opt = plus(h, isok(sw.max_spread)) is not None
                    lim = ok(sw.max_spread) if opt else div(INT(1), INT(20 if c == PCL else 200))
                    if opt:
                        r.ob(f"{tag}.cap", holds(h, limitlit(sw, h, lin_sub(HALF, lim))), "a spread limit above 50% is accepted", v.where())
                    q = next((q for u in [arr(*[p.amount for m in ms or () for p in pays(m)]), curve_term(h)] for q in [Quote(sw, h, sw.norm(h, u))] if q.known), None)
                    if q is None:
                        r.note(f"{tag}: curve not recognised")
                        continue
                    if not q.curve_ok:
                        continue  # D01 reports it
                    ret = q.U if c == PCL else q.G
                    good_ = False
                    for X in {q.X, sw.X}:
                        if plus(h, isok(sw.belief)) is not None:
                            E = div(X, ok(sw.belief))
                            ps = [limitlit(sw, h, lin_sub(ret, E)), limitlit(sw, h, lin_sub(lim, div(lin_sub(E, ret), E)))]
                        else:
                            ps_ = F(CFG, "pool_state", "price_state", "oracle_price")
                            if c in (XYK, TAX):
                                ref = div(mul(X, R[j]), R[i])
                            else:
                                ref = mul(dec(i, X), call("pow", INT(10), sym(f"prec{j}")))
                                if c == PCL:
                                    ref = mul(ref, ps_) if i == 1 else div(ref, ps_)
                            S = lin_sub(ref, q.G)
                            ps = [limitlit(sw, h, lin_sub(lim, div(S, add(ret, S)))), limitlit(sw, h, lin_sub(q.G, ref))]
                        good_ = good_ or holds(h, lambda l: any(p(l) for p in ps))
                    r.ob(f"{tag}.{'belief' if plus(h, isok(sw.belief)) is not None else 'spread'}", good_, "a swap beyond the trader's limit succeeds", v.where())
    for c in CURVES + (TRANS,):
        for kinds in TWO:
            if c == TRANS and "T" in kinds:
                continue
            pr = Provide(ctx, c, kinds)
            tag, v = f"{c[9:]}.{kinds}", pr.v
            for h0, ms in pr.outcomes(isok(pr.minlp)):
                us = [p for m in ms or () for p in pays(m) if p.kind == "mint" and pr.norm(h0, p.amount).op != "int"]
                cs = [(g, a) for h in split(h0, *[eq(x, INT(0)) for x in pr.amt]) for p in us for g, a in hoisted(h, p.amount) if not all(holds(h, is_eq(x, INT(0))) for x in pr.amt)]
                r.ob(f"{tag}.minlp", us and all(holds(g, limitlit(pr, g, lin_sub(pr.norm(g, a), ok(pr.minlp)))) for g, a in cs), "a deposit mints less LP than the minimum asked for", v.where())
            for order in ((0, 1), (1, 0)):
                infos = Shape(ctx, c, kinds).infos
                least = arr(*[st("astroport::asset::Asset", "", (("info", infos[k]), ("amount", sym(f"min{k}")))) for k in order])
                w = Withdraw(ctx, c, kinds, extra=[((sym("msg"), "min_assets_to_receive"), good(least))])
                sh, v = w.sh, w.v
                os_ = w.outcomes(neg(eq(INT(0), SUPPLY)))
                for h0, ms in os_:
                    ps = [p for m in ms or () for p in pays(m)]
                    for h in split(h0, *zeroasked(w, h0)):
                        for k in (0, 1):
                            mine = [p.amount for p in ps if p.asset is sh.atoms[k]]
                            nothing = [INT(0)] + [x for l in h if l.op == "eq" and INT(0) in l.a for x in l.a if x is not INT(0)]
                            enough = lambda a: holds(h, limitlit(w, h, lin_sub(w.norm(h, a), sym(f"min{k}"))))
                            good_ = all(map(enough, mine)) if mine else any(map(enough, nothing))
                            r.ob(f"{tag}.{order[0]}.min{k}", good_ or holds(h, is_eq(sym(f"min{k}"), INT(0))), "a withdrawal pays less than the minimum asked for", v.where())


@prop("D14", 48, "constant product and concentrated pools: a later deposit succeeds only if the price it is made at is off the pool's by at most the limit given, which defaults to half a percent (5% in concentrated pools) and may not exceed 50%")
def d14(ctx, r):
    given_ = msg("slippage_tolerance")
    for c in (XYK, TAX, PCL):
        for kinds in TWO:
            for order in ((0, 1), (1, 0)):
                pr = Provide(ctx, c, kinds, order)
                tag, v, n = f"{c[9:]}.{kinds}.{order[0]}", pr.v, 0
                R = [pr.sh.reserve(k) for k in range(2)]
                for h0, ms in pr.outcomes(neg(eq(INT(0), SUPPLY))):
                    for h in split(h0, isok(given_)):
                        opt = plus(h, isok(given_)) is not None
                        lim = ok(given_) if opt else div(INT(1), INT(20 if c == PCL else 200))
                        says = lambda x: holds(h, limitlit(pr, h, x))
                        if c == PCL:
                            for p in [p for m in ms or () for p in pays(m) if p.kind == "mint"]:
                                if opt:
                                    r.ob(f"{tag}.cap", all(apart(pr, h, p.amount, lin_sub(HALF, lim), plain=True)), "a limit above 50% is accepted", v.where())
                                for good_ in apart(pr, h, p.amount, lim):
                                    n += 1
                                    r.ob(f"{tag}.{'given' if opt else 'default'}", good_, "a deposit off the price scale beyond the limit succeeds", v.where())
                            continue
                        n += 1
                        for i, j in ((0, 1), (1, 0)):
                            off = lin_sub(div(R[i], R[j]), mul(div(pr.amt[i], pr.amt[j]), lin_sub(INT(1), lim)))
                            r.ob(f"{tag}.price{i}", says(off), "a deposit at a price beyond the limit succeeds", v.where())
                        if opt:
                            r.ob(f"{tag}.cap", says(lin_sub(HALF, lim)), "a limit above 50% is accepted", v.where())
                r.ob(f"{tag}.some", n > 0, "no later deposit succeeds", v.where())


def apart(pr, h, lp, lim, plain=False):
    """the deposit mints at most the limit less LP than a trade at the price scale would, unless it differs from a balanced one by less than the smallest trade: [holds?]"""
    ps = F(CFG, "pool_state", "price_state", "price_scale")
    real = F(CFG, "pool_state", "price_state", "xcp_profit_real")
    d = [dec(k, pr.amt[k]) for k in range(2)]
    pool = [dec(k, add(pr.amt[k], pr.sh.reserve(k))) for k in range(2)]
    value = add(d[0], mul(d[1], ps))
    least, total = div(INT(1), INT(10**5)), div(SUPPLY, INT(10**6))
    lits = [l for l in alllits(h) if (l.a[0] if l.op == "not" else l).op in ("le", "lt")]
    lits = {l: x for l, x in ((l, pr.norm(h, l)) for l in lits) if contains(x, ok(msg("slippage_tolerance"))) or contains(x, pr.amt[0]) and contains(x, pr.amt[1]) or any(contains(x, a) for a in pr.amt) and any(contains(x, y) for y in (ps, real))}
    out, known = [], {}
    for g, x in hoisted(h, arr(pr.norm(h, lp), *lits.values()), 256):
        to, S = dict(zip(lits, x.a[1:])), div(x.a[0], INT(10**6))
        roots = {y for l in to.values() for y in walk(l) if y.op == "call" and "sqrt" in y.a[0] and req(y.a[1], div(mul(value, value), mul(INT(4), ps)))}
        fair = [div(y, real) for y in roots]
        close = [lin_sub(least, w) for k in range(2) for b in [div(mul(pool[k], S), add(total, S))] for w in (lin_sub(d[k], b), lin_sub(b, d[k]))]
        wants = tuple(close) + tuple([lim] if plain else [lin_sub(lim, div(lin_sub(L, S), L)) for L in fair])

        def says(l):
            x = to.get(l)
            if x is not None and (x, wants) not in known:
                known[x, wants] = any(ge0(x, w) or x.op in ("le", "lt") and req(lin_sub(x.a[1], x.a[0]), w) for w in wants)
            return x is not None and known[x, wants]

        out.append(holds(g, says))
    return out


def curve_term(h):
    """a term holding the results of the curve's solver on this path"""
    return arr(*[l for l in alllits(h)])


# ---------------------------------------------------------------- prices over time and recorded balances
NOWS = call("seconds", F(ENV, "block", "time"))
LAST = F(CFG, "block_time_last")
MILLION = INT(10**6)


def ends(v, ns, *assume):
    """what a successful call leaves in storage under a namespace: [(facts, key term, stored value or None when untouched)]"""
    out = []
    for f, _, n in v.oks:
        h = plus(f, *assume)
        if h is None:
            continue
        ks = [k for k in n.store if nsof(k[0]) == ns]
        if not ks:
            out.append((h, None, None))
        for k in ks:
            for g, (x,) in cases(h, n.store[k]):
                out.append((g, k[1], None if x.op == "may" else ok(x)))
    return out


def acts(ctx, c, kinds):
    """every operation of a pool which changes its reserves"""
    n = len(kinds)
    for i in range(n):
        yield f"swap{i}", Swap(ctx, c, kinds, i)
    for order in ((0, 1), (1, 0)):
        yield f"provide{order[0]}", Provide(ctx, c, kinds, order)
    yield "withdraw", Withdraw(ctx, c, kinds)


def advance(t, old):
    """the amount a price accumulator moves on by, wrapping around: None when it is something else"""
    if t is old:
        return INT(0)
    if t.op == "call" and t.a[0].endswith("::wrapping_add") and old in t.a[1:]:
        return t.a[2] if t.a[1] is old else t.a[1]
    return None


def atsize(sh, h, t):
    """t with the precisions which are known under h"""
    m = {}
    for l in h:
        if l.op == "eq" and any(x.op == "int" for x in l.a):
            for x in l.a:
                y = sh.norm(x)
                if y.op == "sym":
                    m[y] = [z for z in l.a if z.op == "int"][0]
    return subst(t, m) if m else t


def twap(r, tag, c, sh, h0, get, where, passed, norm, added=()):
    """the accumulators read by get move on by elapsed seconds x price x 10^6 over the reserves before the operation"""
    R = [sh.reserve(k) for k in range(2)]
    elapsed = lin_sub(NOWS, LAST)
    for h in split(h0, lt(LAST, NOWS)):
        later = plus(h, lt(LAST, NOWS)) is not None
        last = get("block_time_last") if get("block_time_last") is not None else None
        if last is not None:
            for g, (t,) in cases(h, last):
                r.ob(f"{tag}.time", t is NOWS if later else t is LAST or holds(g, is_eq(t, LAST)), "the time of the last update is not kept right", where)
        if c in (XYK, TAX):
            accs = [(h, i, 1 - i, F(CFG, f"price{i}_cumulative_last"), get(f"price{i}_cumulative_last")) for i in range(2)]
        else:
            accs = []
            for g, (l,) in cases(h, get("cumulative_prices")):
                if l is F(CFG, "cumulative_prices"):
                    accs += [(g, i, 1 - i, sym(f"cum{i}{1-i}"), sym(f"cum{i}{1-i}")) for i in range(2)]
                    continue
                if not r.ob(f"{tag}.list", l.op == "arr" and len(l.a) == 2, "the list of prices is not kept", where):
                    continue
                for i, x in enumerate(l.a):
                    r.ob(f"{tag}.dir{i}", fld(x, "0") is sh.infos[i] and fld(x, "1") is sh.infos[1 - i], "the directions of the prices are mixed up", where)
                    accs.append((g, i, 1 - i, sym(f"cum{i}{1-i}"), fld(x, "2")))
        moved = {}
        for h1, i, j, old, new in accs:
            for g, (t,) in cases(h1, new):
                t = norm(g, t)
                d = advance(t, old)
                if not r.ob(f"{tag}.price{i}.add", d is not None, "a price accumulator is replaced instead of moved on", where):
                    continue
                if not later:
                    r.ob(f"{tag}.price{i}.once", d is INT(0), "a price counts twice within one block", where)
                    continue
                for g2, d2 in hoisted(g, d):
                    d2 = atsize(sh, g2, norm(g2, d2))
                    if d2 is INT(0):
                        r.ob(f"{tag}.price{i}.skip", c != PCL and holds(g2, nothing(sh, norm, g2, R, added)), "elapsed time is not counted although the pool has reserves", where)
                        continue
                    r.ob(f"{tag}.price{i}", right_price(c, sh, g2, d2, i, j, R, elapsed, passed), "the price accumulated is not the price before the operation", where)
                    moved.setdefault(i, set()).add((g2, d2))
        if later and c == PCL and len(moved) == 2:
            E = mul(elapsed, MILLION)
            r.ob(f"{tag}.inverse", all(req(mul(a, b), mul(E, E)) for g, a in moved[0] for g2, b in moved[1] if refine(g | g2) is not None), "the two prices are not inverse to each other", where)


def nothing(sh, norm, h, R, added=()):
    """predicate: the literal says that a reserve (or its sum with something added to it) is zero"""
    R = [(i, x) for i, x in enumerate(R)] + [(i, add(R[i], x)) for i, x in enumerate(added)]
    if not isinstance(h, frozenset):
        h = frozenset(h)
    def p(l):
        if l.op == "alt":
            return all(p(x) for g, x in l.a[0] if plus(h, *g) is not None)
        return is_zero(l)
    is_zero = lambda l: l.op == "eq" and INT(0) in l.a and any(req(z, x) or req(z, dec(i, x)) for y in l.a for z in (sh.norm(y), norm(h, y)) if y is not INT(0) for i, x in R)
    return p


def right_price(c, sh, h, d, i, j, R, elapsed, passed):
    if c in (XYK, TAX):
        return req(d, div(mul(mul(elapsed, MILLION), R[j]), R[i]))
    if c == STABLE:
        ys = calls(d, "calc_y")
        if len(ys) != 1 or len(ys[0].a) != 5:
            return False
        y = ys[0]
        Z = lambda t: atsize(sh, h, t)
        return (
            req(y.a[2], Z(add(dec(i, R[i]), INT(1))))
            and teq(y.a[3], Z(arr(*[dec(k, R[k]) for k in range(2)])))
            and (not calls(y.a[1], "compute_current_amp") or contains(y.a[1], CFG))
            and y.a[4] is Z(sym(f"prec{j}"))
            and req(d, Z(div(mul(mul(elapsed, MILLION), lin_sub(R[j], ok(y))), call("pow", INT(10), sym(f"prec{j}")))))
        )
    E = mul(elapsed, MILLION)
    last = F(CFG, "pool_state", "price_state", "last_price")
    if req(d, div(E, last) if i == 0 else mul(E, last)):
        return True
    ds = calls(d, "calc_d")
    ps = F(CFG, "pool_state", "price_state", "price_scale")
    x0 = arr(dec(0, R[0]), mul(dec(1, R[1]), ps))
    ys = calls(d, "calc_y")
    return len(ds) == 1 and teq(ds[0].a[1], x0) and all(y.a[1].op == "arr" and len(y.a[1].a) == 2 and req(y.a[1].a[1], x0.a[1]) and not depends(lin_sub(y.a[1].a[0], x0.a[0]), passed) for y in ys) and not depends(d, passed)


def depends(t, p):
    """whether the number depends on what p says: sums which cancel do not count"""
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("calc_d", "calc_y", "fee", "get_amp_gamma"):
        return False
    at = atoms(t)
    if at == {t}:
        return p(t) and (not (kids := [x for x in t.a if isinstance(x, terms.T)]) or any(depends(x, p) for x in kids) or t.op not in ("call", "ok", "min", "max"))
    return any(depends(x, p) for x in at)


@prop("D06", 150, "per pool shape: after a swap, deposit or withdrawal in a later second than the last update both price accumulators have moved on (wrapping around) by elapsed seconds x 10^6 x the price over the reserves before the operation, and the time of the update is now; in the same second nothing changes; no other message touches them; the query reports the stored values moved on in the same way; with an empty reserve only the time moves")
def d06(ctx, r):
    names = ("price0_cumulative_last", "price1_cumulative_last", "cumulative_prices", "block_time_last")
    for c in CURVES:
        for kinds in TWO:
            for what, w in acts(ctx, c, kinds):
                tag = f"{c[9:]}.{kinds}.{what}"
                es = ends(w.v, "config", *w.assume)
                r.ob(f"{tag}.any", bool(es), "the operation never succeeds", w.v.where())
                for h0, key, x in es:
                    new = x if x is not None else CFG
                    if c == PCL and what == "withdraw":
                        for n in names[2:]:
                            r.ob(f"{tag}.{n}", all(t is F(CFG, n) or n == "cumulative_prices" and kept_list(w.sh, t) for _, (t,) in cases(h0, F(new, n))), "a withdrawal, which leaves the price alone, moves the accumulators", w.v.where())
                        continue
                    given_ = set(w.amt) if isinstance(w, Provide) else {w.X} if isinstance(w, Swap) else set()
                    twap(r, tag, c, w.sh, h0, lambda n: F(new, n), w.v.where(), lambda t: isinstance(t, terms.T) and any(contains(t, x) for x in given_), w.norm, w.amt if isinstance(w, Provide) else ())
            sh = Shape(ctx, c, kinds)
            v = sh.run("query", "CumulativePrices")
            for f, val, _ in v.oks:
                h = plus(f, *sh.answers(v))
                for h0, (res,) in cases(h, val) if h is not None else ():
                    res = res.a[0] if res.op == "json" else res
                    twap(r, f"{c[9:]}.{kinds}.query", c, sh, h0, asked(sh, c, res), v.where(), lambda t: False, lambda h, t: sh.norm(simp(h, t)))
        known = fields_of(ctx.prog, cfgtype(ctx, c)) or names
        for v in ctx.views(c, "execute"):
            if v.variant in ("Swap", "Receive", "ProvideLiquidity", "WithdrawLiquidity"):
                continue
            for e, fs in v.effects("config"):
                for n in names:
                    if n not in known:
                        continue
                    r.ob(f"{v.name}.{n}", same(F(e["val"], n), F(CFG, n)), "a message which is no trade moves the price accumulators", v.where(e))


def kept_list(sh, t):
    return t.op == "arr" and all(fld(x, "2") is sym(f"cum{i}{1-i}") for i, x in enumerate(t.a))


def asked(sh, c, res):
    def get(n):
        if n == "block_time_last":
            return None
        l = F(res, "cumulative_prices")
        if n == "cumulative_prices":
            return l
        return fld(l.a[int(n[5])], "2") if l.op == "arr" and len(l.a) == 2 else mk("sym", "unknown")

    return get


@prop("D08", 60, "per pool shape: where a pool tracks balances, every swap, deposit and withdrawal records at the current height, for both assets, the reserve before plus what came in minus everything sent out; otherwise it records nothing; no other message writes these records except zeros at creation; the query reads the record of the asset at the height asked for")
def d08(ctx, r):
    on = F(CFG, "track_asset_balances")
    for c in (XYK, TAX, PCL):
        n = c[9:]
        for kinds in TWO:
            for what, w in acts(ctx, c, kinds):
                tag, sh, v = f"{n}.{kinds}.{what}", w.sh, w.v
                some = False
                for f, val, end in v.oks:
                    ks = {k[1]: k for k in end.store if nsof(k[0]) == "balances"}
                    h = plus(f, *w.assume, neg(on))
                    if h is not None:
                        r.ob(f"{tag}.off", all(t.op == "may" for k in ks.values() for _, (t,) in cases(h, end.store[k])), "balances are recorded although the pool does not track them", v.where())
                    for h, ms in sends(v, f, val, *w.assume, on):
                        some = True
                        if not r.ob(f"{tag}.keys", ms is not None and set(ks) == set(sh.infos), "not exactly the two reserves are recorded", v.where()):
                            continue
                        q = zeroqs(w) + [isok(F(CFG, "fee_share"))] + ([isok(taxes(w))] if c == TAX else []) if isinstance(w, Swap) else []
                        for g in split(h, *q):
                            balances_case(r, tag, w, g, [p for m in ms for p in pays(m)], [end.store[ks[x]] for x in sh.infos])
                r.ob(f"{tag}.any", some, "the operation never succeeds with tracking on", v.where())
                for e, fs in v.effects("balances"):
                    r.ob(f"{tag}.height", e.get("height") is HEIGHT, "a balance is recorded for another height", v.where(e))
        for ename in ("execute", "reply", "instantiate", "migrate", "sudo"):
            if not ctx.has(c, ename):
                continue
            for var in ctx.variants(c, ename):
                if ename == "execute" and var in ("Swap", "Receive", "ProvideLiquidity", "WithdrawLiquidity"):
                    continue
                v = ctx.view(c, ename, var)
                for e, fs in v.effects("balances"):
                    r.ob(f"{n}.{ename}.{var}", ename == "instantiate" and e["val"] is INT(0) and e.get("height") is HEIGHT, "balances are recorded outside of trades, deposits and withdrawals", v.where(e))
        v = ctx.view(c, "query", "AssetBalanceAt")
        for f, val, _ in v.oks:
            for g, (t,) in cases(f, val):
                t = t.a[0] if t.op == "json" else t
                t = t.a[0] if t.op == "ok" else t
                r.ob(f"{n}.query", t.op == "call" and t.a[0] == "at_height" and nsof(t.a[1]) == "balances" and t.a[2] is msg("asset_info") and t.a[3] is msg("block_height"), "the query reads another record than that of the asset at the height asked for", v.where())


def equal(w, h, a, e):
    """the amounts are the same under h, amounts known to be zero aside"""
    d = vanish(w, h, lin_sub(w.norm(h, a), w.norm(h, e)))[0]
    if req(d, INT(0)):
        return True
    zs = set()
    for l in alllits(h):
        if l.op == "eq" and INT(0) in l.a and (l in h or holds(h, lambda x: x is l)):
            zs |= {vanish(w, g, w.norm(g, x))[0] for y in l.a if y is not INT(0) for g, (x,) in cases(h, simp(h, y))}
    zs = sorted(zs, key=lambda x: x.id)[:5]
    sums = [d]
    for z in zs:
        sums += [y for x in sums for y in (add(x, z), lin_sub(x, z))]
        if any(req(x, INT(0)) for x in sums):
            return True
    return False


def balances_case(r, tag, w, h, ps, stored):
    sh, v = w.sh, w.v
    for k in (0, 1):
        came = w.amt[k] if isinstance(w, Provide) else w.X if isinstance(w, Swap) and w.i == k else INT(0)
        want = add(sh.reserve(k), came)
        for p in ps:
            if p.asset is sh.atoms[k] and p.kind in ("native", "cw20"):
                want = lin_sub(want, p.amount)
        for g, (t, e) in cases(h, stored[k], want):
            if not r.ob(f"{tag}.set{k}", t.op == "good", "a reserve is not recorded", v.where()):
                continue
            r.ob(f"{tag}.amount{k}", all(equal(w, g2, d, INT(0)) for g2, d in hoisted(g, lin_sub(ok(t), e), 8)), "the balance recorded is not the reserve after the operation", v.where())


# ---------------------------------------------------------------- price observations
OBS = ("precommit_observation", "observations_state", "observations_buffer")


def isrem(t):
    """(x, m) of x modulo m"""
    return (t.a[1], t.a[2]) if t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "rem" and len(t.a) == 3 else None


def unrem(k, cap):
    """k with a repeated modulus taken once"""
    while isrem(k) and isrem(k)[1] is cap and isrem(isrem(k)[0]) and isrem(isrem(k)[0])[1] is cap:
        k = isrem(k)[0]
    return k


@prop("D07", 60, "per pool shape with price observations: a swap adds exactly its two traded amounts, asset 0 first, to the one pending observation of its second (starting afresh in a new one), skipping only trades under the minimum size; it appends the pending observation as it was before the swap, with its time and price, to the ring at the head and moves the head on by one slot, exactly when the pending one is newer than the newest in the ring (or, in an empty ring, than the current block); nothing else writes these records")
def d07(ctx, r):
    for c in (STABLE, PCL):
        n = c[9:]
        items = {}
        for kinds in TWO:
            for tag, sw in swaps(ctx, c, (kinds,)):
                v = sw.v
                some = False
                for f, val, end in v.oks:
                    ks = {nsof(k[0]): k for k in end.store if nsof(k[0]) in OBS}
                    r.ob(f"{tag}.keys", len(ks) == sum(1 for k in end.store if nsof(k[0]) in OBS), "more than one observation is appended by a swap", v.where())
                    for k in end.store:
                        items[nsof(k[0])] = k[0]
                    for h, ms in sends(v, f, val, *sw.assume):
                        some = True
                        get = lambda ns: end.store[ks[ns]] if ns in ks else mk("never")
                        keys, its = {k: ks[k][1] for k in ks}, {k: ks[k][0] for k in ks}
                        newest, qs = timing(h, keys, its)
                        for h1 in split(h, isok(sw.to), *qs[4:]):
                            for g, (pc,) in cases(h1, get(OBS[0])):
                                pending_case(r, tag, sw, g, ms, keys, its, pc)
                        for h1 in split(frozenset(l for l in h if about(l, its)), *qs[:4]):
                            for g, (st_, bf) in cases(h1, get(OBS[1]), get(OBS[2])):
                                ring_case(r, tag, sw, g, keys, its, newest, st_, bf)
                r.ob(f"{tag}.any", some, "no swap succeeds", v.where())
        for ename in ("execute", "reply", "instantiate", "migrate", "sudo"):
            if not ctx.has(c, ename):
                continue
            for var in ctx.variants(c, ename):
                if ename == "execute" and var in ("Swap", "Receive"):
                    continue
                v = ctx.view(c, ename, var)
                for ns in OBS:
                    for e, fs in v.effects(ns):
                        r.ob(f"{n}.{ename}.{var}.{ns}", ename == "instantiate" and ns == OBS[1] and simp(fs, F(e["val"], "head")) is INT(0), "observations are written by something else than a swap", v.where(e))
        v = ctx.view(c, "query", "Observe")
        for f, val, _ in v.oks:
            for g, (t,) in cases(f, val):
                for g2, (u,) in cases(g, t.a[0] if t.op == "json" else t):
                    r.ob(f"{n}.query", F(u, "timestamp") is lin_sub(NOWS, msg("seconds_ago")), "a price is reported for another time than the one asked for", v.where())


def timing(h, keys, its):
    """the newest entry of the ring, and the questions which decide whether the pending observation is due"""
    if any(x not in its for x in OBS):
        return None, ()
    pre = ok(mk("may", its[OBS[0]], keys[OBS[0]]))
    old = F(pre, "precommit_ts")
    state = ok(mk("may", its[OBS[1]], keys[OBS[1]]))
    head, cap = F(state, "head"), F(state, "capacity")
    for l in alllits(h):
        for x in walk(l):
            if x.op == "may" and x.a[0] is its[OBS[2]]:
                k = isrem(unrem(x.a[1], cap))
                if k and k[1] is cap and req(k[0], lin_sub(add(head, cap), INT(1))):
                    return x, (isok(pre.a[0]), isok(x), lt(F(ok(x), "ts"), old), lt(old, NOWS), isok(pre.a[0]), eq(old, NOWS))
    return None, ()


def about(l, its):
    return any(contains(l, i) for i in its.values())


def pending_case(r, tag, sw, h, ms, keys, its, pc):
    v, sh, i, j = sw.v, sw.sh, sw.i, sw.j
    pre = ok(mk("may", its[OBS[0]], keys[OBS[0]])) if OBS[0] in its else None
    to = strip(ok(sw.to)) if plus(h, isok(sw.to)) is not None else strip(sw.trader)
    users = [p for m in ms or () for p in pays(m) if p.asset is sh.atoms[j] and strip(simp(h, p.to)) is to]
    out = simp(h, users[0].amount) if users else INT(0)
    if pc.op == "good":
        x = ok(pc)
        for g, (y,) in cases(h, x):
            amts = [F(y, "base_amount"), F(y, "quote_amount")]
            r.ob(f"{tag}.time", simp(g, F(y, "precommit_ts")) is NOWS or holds(g, is_eq(F(y, "precommit_ts"), NOWS)), "the pending observation does not carry the time of its trades", v.where())
            adds = plus(g, isok(pre.a[0]), eq(F(pre, "precommit_ts"), NOWS)) is not None if pre is not None else False
            for k in (0, 1):
                want = sw.X if k == i else out
                if adds:
                    want = add(want, F(pre, ("base_amount", "quote_amount")[k]))
                r.ob(f"{tag}.amount{k}", all(equal(sw, g2, d, INT(0)) for g2, d in hoisted(g, lin_sub(simp(g, amts[k]), simp(g, want)), 8)), "the pending observation is not the sum of the amounts traded in its second", v.where())
    else:
        fixed = lambda x: not any(y.op in ("fld", "ok", "sym", "may", "elem") for y in walk(x))
        passed = lambda l: l.op == "lt" and fixed(l.a[1]) and (contains(l.a[0], sw.X) or calls(l.a[0], "calc_y"))
        r.ob(f"{tag}.skip", holds(h, passed), "a trade is left out of the observations although it is not tiny", v.where())


def ring_case(r, tag, sw, h, keys, its, newest, st_, bf):
    v = sw.v
    pre = ok(mk("may", its[OBS[0]], keys[OBS[0]])) if OBS[0] in its else None
    stays = bf.op in ("may", "never")
    r.ob(f"{tag}.both", (st_.op in ("may", "never")) == stays, "the ring's head moves without an entry, or the other way round", v.where())
    if OBS[1] not in its or OBS[2] not in its:
        r.ob(f"{tag}.appends", False, "swaps never append an observation", v.where())
        return
    if pre is None:
        r.ob(f"{tag}.pending", False, "swaps never record a pending observation", v.where())
        return
    state = ok(mk("may", its[OBS[1]], keys[OBS[1]]))
    head, cap = F(state, "head"), F(state, "capacity")
    if not r.ob(f"{tag}.newest", newest is not None or plus(h, isok(pre.a[0])) is None, "the newest observation is not consulted", v.where()):
        return
    old, ts = F(pre, "precommit_ts"), None
    if newest is None:
        return
    ts = F(ok(newest), "ts")
    due = [plus(h, isok(pre.a[0]), isok(newest), lt(ts, old)), plus(h, isok(pre.a[0]), neg(isok(newest)), lt(old, NOWS))]
    if stays:
        r.ob(f"{tag}.due", due == [None, None], "a pending observation which is due is not appended", v.where())
        return
    fresh = [plus(h, neg(isok(pre.a[0]))), plus(h, isok(pre.a[0]), isok(newest), le(old, ts)), plus(h, isok(pre.a[0]), neg(isok(newest)), le(NOWS, old))]
    r.ob(f"{tag}.once", fresh == [None] * 3, "an observation is appended twice or too early", v.where())
    r.ob(f"{tag}.slot", keys[OBS[2]] is head, "an observation is not appended at the head of the ring", v.where())
    for g, (y, z) in cases(h, ok(bf), ok(st_)):
        r.ob(f"{tag}.entry", F(y, "ts") is old and req(F(y, "price"), div(F(pre, "base_amount"), F(pre, "quote_amount"))), "the observation appended is not the pending one from before the swap", v.where())
        nh = F(z, "head")
        r.ob(f"{tag}.head", F(z, "capacity") is cap and isrem(nh) and isrem(nh)[1] is cap and req(isrem(nh)[0], add(head, INT(1))), "the head of the ring does not move on by one slot", v.where())


def plainfrac(t):
    """numerators and denominators of decimals as the decimals themselves"""
    one = mk("atom", "fractions")
    for _ in range(20):
        m = {}
        for x in walk(t):
            if x.op == "call" and x.a[0].endswith("::Fraction::denominator"):
                m[x] = one
            elif x.op == "call" and x.a[0].endswith("::Fraction::numerator") and not any(y.op == "call" and "::Fraction::" in y.a[0] for y in walk(x.a[1])):
                m[x] = mul(x.a[1], one)
        if not m:
            return t
        t = subst(t, m)
    return t


def slot(x, cap):
    """the place of an entry of the ring, whatever number of rounds"""
    k = unrem(x.a[1], cap)
    return isrem(k)[0] if isrem(k) and isrem(k)[1] is cap else k


def ahead(a, b, cap, n):
    """b lies n places after a"""
    return any(req(add(b, m), add(a, INT(n))) for m in (INT(0), cap, neg_(cap)))


def neg_(x):
    return lin_sub(INT(0), x)


@prop("D16", 20, "per pool with price observations: the entry appended carries as average the price alone in an empty ring, (average x entries + price) / (entries + 1) while the ring's next slot is free, and average + (price - price of the entry overwritten) / capacity afterwards; the query answers the newest entry's average from its time on, that of an entry of exactly the time asked for, the straight line between two neighbouring entries which enclose the time, or, in an empty ring, the pending trades' price from their time on")
def d16(ctx, r):
    for c in (STABLE, PCL):
        n = c[9:]
        for kinds in TWO:
            for tag, sw in swaps(ctx, c, (kinds,)):
                some = False
                for f, val, end in sw.v.oks:
                    ks = {nsof(k[0]): k for k in end.store if nsof(k[0]) in OBS}
                    if any(x not in ks for x in OBS):
                        continue
                    keys, its = {k: ks[k][1] for k in ks}, {k: ks[k][0] for k in ks}
                    newest, qs = timing(f, keys, its)
                    if newest is None:
                        continue
                    h = frozenset(l for l in f if about(l, its))
                    for h1 in split(h, *qs[:2]):
                        for g, (bf,) in cases(h1, end.store[ks[OBS[2]]]):
                            if bf.op not in ("may", "never"):
                                some = True
                                average_case(r, tag, sw.v, g, keys, its, newest, ok(bf))
                r.ob(f"{tag}.any", some, "no observation is ever appended", sw.v.where())
        v = ctx.view(c, "query", "Observe")
        seen = False
        for f, val, _ in v.oks:
            for g, (t,) in cases(f, val):
                for g2, (u,) in cases(g, t.a[0] if t.op == "json" else t):
                    for g3, p in hoisted(g2, F(u, "price"), 32):
                        seen = True
                        past_case(r, n, v, g3, p)
        r.ob(f"{n}.answers", seen, "the query always fails", v.where())


def average_case(r, tag, v, h, keys, its, newest, y):
    pre = ok(mk("may", its[OBS[0]], keys[OBS[0]]))
    state = ok(mk("may", its[OBS[1]], keys[OBS[1]]))
    head, cap = F(state, "head"), F(state, "capacity")
    price = div(F(pre, "base_amount"), F(pre, "quote_amount"))
    oldest = mk("may", its[OBS[2]], head)
    for l in list(alllits(h)) + [y]:
        for x in walk_deep(l):
            if x.op == "may" and x.a[0] is its[OBS[2]] and slot(x, cap) is head:
                oldest = x

    def is_(g, want):
        return all(req(plainfrac(t), want) for _, t in hoisted(g, F(y, "price_sma"), 16))

    g = plus(h, neg(isok(newest)))
    if g is not None:
        r.ob(f"{tag}.first", is_(g, price), "the first entry's average is not its price", v.where())
    last = F(ok(newest), "price_sma")
    g = plus(h, isok(newest), neg(isok(oldest)))
    if g is not None:
        r.ob(f"{tag}.filling", is_(g, div(add(mul(last, head), price), add(head, INT(1)))), "while the ring fills up, the average is not that of all entries", v.where())
    g = plus(h, isok(newest), isok(oldest))
    if g is not None:
        r.ob(f"{tag}.full", is_(g, add(last, div(lin_sub(price, F(ok(oldest), "price")), cap))), "in a full ring, the average is not that of the entries which stay and the new one", v.where())


def past_case(r, n, v, g, p):
    target = lin_sub(NOWS, msg("seconds_ago"))
    mays = []
    for l in list(alllits(g)) + [p]:
        for x in walk_deep(l):
            if x.op == "may" and nsof(x.a[0]) in OBS and x not in mays:
                mays.append(x)
    one = lambda ns: next((x for x in mays if nsof(x.a[0]) == ns), None)
    state, pre = one(OBS[1]), one(OBS[0])
    if state is None:
        r.ob(f"{n}.ring", False, "past prices are not taken from the ring", v.where())
        return
    head, cap = F(ok(state), "head"), F(ok(state), "capacity")
    ring = [x for x in walk_deep(p) if x.op == "may" and nsof(x.a[0]) == OBS[2]]
    ring = list(dict.fromkeys(ring))
    time = lambda x: F(ok(x), "ts")
    avg = lambda x: F(ok(x), "price_sma")
    def same_(*pairs):
        """predicate: one of these pairs is equal"""

        def p1(l):
            return l.op == "eq" and any(req(lin_sub(*l.a), lin_sub(x, y)) or req(lin_sub(*l.a), lin_sub(y, x)) for x, y in pairs)

        return lambda l: l.op == "eq" and all(p1(x) for _, x in hoisted(g, l, 8))

    good_ = False
    if not ring:
        free = holds(g, lambda l: l.op == "not" and l.a[0].op == "isok" and l.a[0].a[0].op == "may" and nsof(l.a[0].a[0].a[0]) == OBS[2] and ahead(head, slot(l.a[0].a[0], cap), cap, 0))
        good_ = pre is not None and req(p, div(F(ok(pre), "base_amount"), F(ok(pre), "quote_amount"))) and ordered(g, F(ok(pre), "precommit_ts"), target) and free and holds(g, same_((head, INT(0))))
    for e in ring:
        if p is avg(e):
            good_ = good_ or holds(g, same_((time(e), target))) or ahead(head, slot(e, cap), cap, -1) and ordered(g, time(e), target)
    near = list(dict.fromkeys(ring + [x for l in alllits(g) for x in walk_deep(l) if x.op == "may" and nsof(x.a[0]) == OBS[2] and not any(y.op == "alt" for y in walk(x))]))
    for a in near:
        for b in near:
            if not good_ and a is not b and ahead(slot(a, cap), slot(b, cap), cap, 1) and ordered(g, time(a), target) and ordered(g, target, time(b)):
                line = add(avg(a), div(mul(lin_sub(avg(b), avg(a)), lin_sub(target, time(a))), lin_sub(time(b), time(a))))
                never = ordered(g, avg(a), avg(b)) and ordered(g, avg(b), avg(a)) and holds(g, neqs(avg(a), avg(b)))
                good_ = req(p, line) or never or any(p is avg(x) and holds(g, same_((avg(a), avg(b)), (time(x), target))) for x in (a, b))
    r.ob(f"{n}.past", good_, "a past price is neither an entry's average at its time, nor the line between its neighbours, nor the newest known", v.where())


class Ask:
    """a question about a trade or a deposit which never happens"""

    def __init__(self, ctx, c, kinds, variant, i=0, extra=None):
        self.sh = Shape(ctx, c, kinds)
        self.i, self.j = i, 1 - i
        self.X = msg("offer_asset", "amount")
        self.amt = [sym(f"amt{k}") for k in range(self.sh.n)]
        self.v = self.sh.run("query", variant, extra(self) if extra else ())
        self.assume = tuple(self.sh.answers(self.v))

    def norm(self, h, t):
        return self.precisions(self.sh.norm(simp(h, t)))

    def precisions(self, t):
        """the decimals known elsewhere are those stored at creation"""
        m = {}
        for x in walk(t):
            for k, a in enumerate(self.sh.atoms):
                d = x.op == "ok" and x.a[0].op == "ok" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "rawquery" and len(x.a[0].a[0].a) == 4 and nsof(x.a[0].a[0].a[2]) == "coins_info" and x.a[0].a[0].a[3] is a
                if d or x.op == "fld" and x.a[1] == "decimals" and isquery(x.a[0], a, "TokenInfo"):
                    m[x] = sym(f"prec{k}")
        return subst(t, m) if m else t

    def answers(self, *more):
        for f, val, _ in self.v.oks:
            h = plus(f, *self.assume, *more)
            if h is None:
                continue
            for g, (t,) in cases(h, val):
                while t.op in ("json", "ok"):
                    t = t.a[0]
                yield g, t


def listed(sh, i):
    return arr(*[st("astroport::asset::Asset", "", (("info", x), ("amount", sym(f"amt{k}")))) for k, x in enumerate(sh.infos)])


@prop("D09", 60, "per pool shape: the simulation of a swap, its reverse, and the simulations of deposits and withdrawals answer exactly the amounts the operation itself would pay, charge or mint over the current reserves")
def d09(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[9:]
        for kinds in TWO:
            if c == TRANS and "T" in kinds:
                continue
            for i in (0, 1):
                forward(ctx, r, f"{n}.{kinds}{i}", c, kinds, i)
                backward(ctx, r, f"{n}.{kinds}{i}", c, kinds, i)
            for var, lp in (("SimulateWithdraw", msg("lp_amount")), ("Share", msg("amount"))):
                if c == TRANS and not ctx.view(c, "query", var).oks:
                    continue
                if var in ctx.variants(c, "query"):
                    shares(ctx, r, f"{n}.{kinds}", c, kinds, var, lp)
            if c != TRANS:
                minted(ctx, r, f"{n}.{kinds}", c, kinds)


def idle(h, sw):
    """nothing can be traded: an amount or a reserve is zero"""
    none = [sw.X] + [sw.sh.reserve(k) for k in range(2)] + [dec(k, sw.sh.reserve(k)) for k in range(2)]
    zs = []
    for l in alllits(h):
        l = l.a[0] if l.op == "not" else l
        if l.op == "eq" and INT(0) in l.a and any(req(sw.norm(h, y), x) for y in l.a if y is not INT(0) for x in none):
            zs.append(l)
    return bool(zs) and plus(h, *[neg(z) for z in set(zs)]) is None


def forward(ctx, r, tag, c, kinds, i):
    sw = Ask(ctx, c, kinds, "Simulation", i, lambda s: [((msg("offer_asset"), "info"), s.sh.infos[i])])
    v, sh, j = sw.v, sw.sh, 1 - i
    R = [sh.reserve(k) for k in range(2)]
    some = False
    for h0, t in sw.answers():
        for h in split(h0, *([isok(taxes(sw))] if c == TAX else [])):
            for g, (ret, com, spr) in cases(h, F(t, "return_amount"), F(t, "commission_amount"), F(t, "spread_amount")):
                ret, com, spr = (sw.norm(g, x) for x in (ret, com, spr))
                some = True
                if c == TRANS:
                    nc = lambda k: ok(call("mapget", F(CFG, "norm_coeff"), sh.atoms[k]))
                    r.ob(f"{tag}.return", req(ret, div(mul(sw.X, nc(i)), nc(j))) and req(com, INT(0)) and req(spr, INT(0)), "a simulation of a transmuter is not one to one", v.where())
                    continue
                if all(x is INT(0) for x in (ret, com, spr)):
                    r.ob(f"{tag}.idle", idle(g, sw), "a possible trade is simulated as paying nothing", v.where())
                    continue
                q = Quote(sw, g, ret)
                if not q.known:
                    r.note(f"{tag}: curve not recognised")
                    continue
                r.ob(f"{tag}.curve", q.curve_ok, "a simulation does not evaluate the curve on the current reserves", v.where())
                if not q.curve_ok:
                    continue
                r.ob(f"{tag}.return", agree(sw, g, ret, q.U), "a simulation answers another return than the swap pays", v.where())
                r.ob(f"{tag}.commission", agree(sw, g, com, q.C), "a simulation answers another commission than the swap takes", v.where())
                ps = F(CFG, "pool_state", "price_state", "oracle_price")
                if c in (XYK, TAX):
                    ref = div(mul(q.X, R[j]), R[i])
                else:
                    ref = mul(dec(i, q.X), call("pow", INT(10), sym(f"prec{j}")))
                    if c == PCL:
                        ref = mul(ref, ps) if i == 1 else div(ref, ps)
                r.ob(f"{tag}.spread", agree(sw, g, spr, lin_sub(ref, q.G)), "a simulation answers another spread than the swap's", v.where())
    r.ob(f"{tag}.some", some, "no simulation succeeds", v.where())


def backward(ctx, r, tag, c, kinds, i):
    """asset i is offered, an amount of the other is wanted"""
    j = 1 - i
    sw = Ask(ctx, c, kinds, "ReverseSimulation", i, lambda s: [((msg("ask_asset"), "info"), s.sh.infos[j]), ((sym("msg"), "offer_asset_info"), good(s.sh.infos[i]))])
    v, sh = sw.v, sw.sh
    W = msg("ask_asset", "amount")
    sw.X = W
    R = [sh.reserve(k) for k in range(2)]
    r.ob(f"{tag}.rsome", bool(v.oks), "no reverse simulation succeeds", v.where())
    for h0, t in sw.answers():
        qs = [isok(taxes(sw))] if c == TAX else []
        for h in split(h0, *qs):
            for g, (off, com, spr) in cases(h, F(t, "offer_amount"), F(t, "commission_amount"), F(t, "spread_amount")):
                off, com, spr = (sw.norm(g, x) for x in (off, com, spr))
                if all(x is INT(0) for x in (off, com, spr)) and c != TRANS:
                    r.ob(f"{tag}.rev.idle", idle(g, sw), "a possible trade is simulated as costing nothing", v.where())
                    continue
                backward_case(r, tag, c, sw, g, off, com, spr, W, R, i, j)


def backward_case(r, tag, c, sw, g, off, com, spr, W, R, i, j):
    sh, v = sw.sh, sw.v
    if c == TRANS:
        nc = lambda k: ok(call("mapget", F(CFG, "norm_coeff"), sh.atoms[k]))
        r.ob(f"{tag}.reverse", req(off, div(mul(W, nc(j)), nc(i))) and req(com, INT(0)) and req(spr, INT(0)), "a reverse simulation of a transmuter is not one to one", v.where())
        return
    if c in (XYK, TAX):
        off = amap(lambda x: mul(x.a[1], x.a[2]) if x.op == "call" and x.a[0].endswith("::mul_ceil") else x, off)
        sw.X = off
        q = Quote(sw, g, off)
        r.ob(f"{tag}.reverse", agree(sw, g, q.U, W), "the offer answered does not buy the amount asked for", v.where())
        r.ob(f"{tag}.rcommission", agree(sw, g, com, q.C), "a reverse simulation answers another commission than the swap takes", v.where())
        sw.X = W
        return
    ys = calls(off, "calc_y")
    if not ys:
        r.note(f"{tag}: curve not recognised")
        return
    y = ys[0]
    if c == STABLE:
        B = div(dec(j, W), lin_sub(INT(1), div(sym("total"), BPS)))
        gp = F(CFG, "greatest_precision")
        args = list(y.a[1:])
        xp = arr(*[dec(k, R[k]) for k in range(2)])
        r.ob(f"{tag}.rcurve", len(ys) == 1 and len(args) == 4 and agree(sw, g, args[1], lin_sub(dec(j, R[j]), B)) and teq(args[2], xp) and args[3] is gp, "a reverse simulation does not evaluate the curve on the reserves less what is asked for", v.where())
        ten = lambda e: call("pow", INT(10), e)
        same_ = {gp: sym(f"prec{i}")} if holds(g, lambda l: l.op == "eq" and {sw.norm(g, x) for x in l.a} == {gp, sym(f"prec{i}")}) else {}
        have, want = mul(off, ten(gp)), mul(lin_sub(ok(y), mul(dec(i, R[i]), ten(gp))), ten(sym(f"prec{i}")))
        r.ob(f"{tag}.reverse", agree(sw, g, subst(have, same_), subst(want, same_)), "the offer answered is not the curve's growth of the offered reserve", v.where())
        C = mul(mul(B, ten(sym(f"prec{j}"))), div(sym("total"), BPS))
        none = com is INT(0) and holds(g, lambda l: l.op == "eq" and INT(0) in l.a and any(req(mul(sw.norm(g, y), k), x) for y in l.a if y is not INT(0) for x in (C, mul(B, ten(sym(f"prec{j}"))), sym("total")) for k in (INT(1), BPS)))
        r.ob(f"{tag}.rcommission", none or agree(sw, g, com, C), "a reverse simulation answers another commission than the swap takes", v.where())
        return
    ds = calls(off, "calc_d")
    ps = F(CFG, "pool_state", "price_state", "price_scale")
    scale = lambda k, x: mul(x, ps) if k == 1 else x
    x0 = [scale(k, dec(k, R[k])) for k in range(2)]
    B = div(scale(j, dec(j, W)), lin_sub(INT(1), F(CFG, "pool_params", "out_fee")))
    x1 = [lin_sub(x0[k], B) if k == j else x0[k] for k in range(2)]
    r.ob(f"{tag}.rcurve", len(ys) == len(ds) == 1 and teq(ds[0].a[1], arr(*x0)) and teq(y.a[1], arr(*x1)) and y.a[2] is ok(ds[0]) and y.a[3] is ds[0].a[2] and y.a[4] is INT(i), "a reverse simulation does not evaluate the curve on the reserves less what is asked for", v.where())
    want = lin_sub(ok(y), x0[i])
    want = div(want, ps) if i == 1 else want
    r.ob(f"{tag}.reverse", agree(sw, g, off, mul(want, call("pow", INT(10), sym(f"prec{i}")))), "the offer answered is not the curve's growth of the offered reserve", v.where())


def shares(ctx, r, tag, c, kinds, var, lp):
    w = Ask(ctx, c, kinds, var)
    sh, v = w.sh, w.v
    some = False
    for h, t in w.answers(neg(eq(INT(0), SUPPLY))):
        if t.op == "st" and t.a[0].endswith("Response"):
            t = F(t, "assets")
        if not r.ob(f"{tag}.{var}.list", t.op == "arr" and len(t.a) == 2, "the share is not listed per asset", v.where()):
            continue
        some = True
        for k in range(2):
            for g, (a, info) in cases(h, F(t.a[k], "amount"), F(t.a[k], "info")):
                a = w.norm(g, a)
                r.ob(f"{tag}.{var}.share", info is sh.infos[k] and any(agree(w, g, a, div(mul(x, sh.reserve(k)), SUPPLY)) for x in [lp] + less1(lp)), "the share answered is not the part of the reserves a withdrawal pays", v.where())
    r.ob(f"{tag}.{var}.some", some, "no share is ever answered", v.where())


def minted(ctx, r, tag, c, kinds):
    pr = Ask(ctx, c, kinds, "SimulateProvide", 0, lambda s: [((sym("msg"), "assets"), listed(s.sh, 0))])
    v = pr.v
    some = False
    for first in (True, False):
        z = eq(INT(0), SUPPLY)
        for h0, t in pr.answers(z if first else neg(z)):
            for h in split(h0, *[eq(x, INT(0)) for x in pr.amt]):
                if all(holds(h, is_eq(a, INT(0))) for a in pr.amt):
                    continue
                for g, a in hoisted(h, t):
                    m = Minted(pr, g, a, first)
                    if not m.known:
                        r.note(f"{tag}: amount not recognised")
                        continue
                    some = True
                    r.ob(f"{tag}.mint.args", m.args, "a simulated deposit does not take the invariant at the reserves before and after it", v.where())
                    if m.args:
                        r.ob(f"{tag}.mint", m.right(), "a simulated deposit answers another amount than it would mint", v.where())
    r.ob(f"{tag}.mint.some", some, "no deposit can be simulated", v.where())


def coeff(sh, k):
    return ok(call("mapget", F(CFG, "norm_coeff"), sh.atoms[k]))


@prop("D11", 40, "the transmuter: a swap pays the receiver exactly the offered amount times the offered asset's coefficient over the asked one's, of the asset asked for, and nothing else; an imbalanced withdrawal burns exactly the sum of the amounts times their coefficients out of the LP sent, returns the rest, and pays exactly the amounts asked for to the sender; coefficients are set once, to make every asset's unit equal")
def d11(ctx, r):
    c = TRANS
    for kinds in ("NN", "NNN"):
        n = len(kinds)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                sw = Swap(ctx, c, kinds, i, j if n > 2 else None)
                v, sh = sw.v, sw.sh
                tag = f"swap.{kinds}{i}{j}"
                some = False
                for h0, ms in sw.outcomes():
                    if not r.ob(f"{tag}.list", ms is not None and len(ms) == 1 and len(pays(ms[0])) == 1, "a swap does not send exactly one payment", v.where()):
                        continue
                    some = True
                    p = pays(ms[0])[0]
                    for h in split(h0, isok(sw.to)):
                        for g, (a, to, asset) in cases(h, p.amount, p.to, p.asset):
                            a, to, asset = sw.norm(g, a), simp(g, to), simp(g, asset)
                            r.ob(f"{tag}.asset", p.kind == "native" and asset is sh.atoms[j], "a swap pays another asset than the one asked for", v.where())
                            r.ob(f"{tag}.amount", req(infos_in(sh, a), div(mul(sw.X, coeff(sh, i)), coeff(sh, j))), "a swap is not one to one in whole units", v.where())
                            r.ob(f"{tag}.to", is_validated(to) and strip(to) is strip(ok(sw.to)) if plus(g, isok(sw.to)) is not None else strip(to) is SENDER, "the proceeds go to somebody else than the receiver named, or else the trader", v.where())
                            r.ob(f"{tag}.covered", holds(g, limitlit(sw, g, lin_sub(sh.reserve(j), a))), "a swap of more than the pool holds does not fail", v.where())
                r.ob(f"{tag}.some", some, "no swap succeeds", v.where())
            if n > 2:
                sh = Shape(ctx, c, kinds)
                v = sh.run("execute", "Swap", [((msg("offer_asset"), "info"), sh.infos[i]), ((sym("msg"), "ask_asset_info"), BAD)])
                r.ob(f"swap.{kinds}{i}.unnamed", not outcomes(v, *sh.answers(v)), "a swap chooses the asset to pay itself", v.where())
        for want in ((0,), (1,), (0, 1), (1, 0)):
            sh = Shape(ctx, c, kinds)
            ws = [sym(f"want{k}") for k in want]
            w = Withdraw(ctx, c, kinds, [st("astroport::asset::Asset", "", (("info", sh.infos[k]), ("amount", x))) for k, x in zip(want, ws)])
            v, sh = w.v, w.sh
            tag = f"withdraw.{kinds}.{''.join(map(str, want))}"
            need = INT(0)
            for k, x in zip(want, ws):
                need = add(need, mul(x, coeff(sh, k)))
            os_ = w.outcomes()
            r.ob(f"{tag}.some", len(os_) > 0, "no imbalanced withdrawal succeeds", v.where())
            for h0, ms in os_:
                if not r.ob(f"{tag}.list", ms is not None and all(len(pays(m)) == 1 for m in ms), "the messages of a withdrawal are not determined", v.where()):
                    continue
                ps = [pays(m)[0] for m in ms]
                for h in split(h0, *[eq(x, INT(0)) for x in ws]):
                    uneven(r, tag, w, h, ps, want, ws, need)
    for n in (2, 3):
        sh = Shape(ctx, c, "N" * n)
        v = ctx.view(c, "instantiate", None, alias=(((sym("msg"), "asset_infos"), arr(*sh.infos)),))
        r.ob(f"coeff.{n}.some", bool(v.oks), "no pool can be created", v.where())
        for f, _, end in v.oks:
            cs = [t for k, t in end.store.items() if nsof(k[0]) == "config"]
            for g, (m,) in cases(f, F(cs[0].a[0] if cs[0].op == "good" else ok(cs[0]), "norm_coeff")) if len(cs) == 1 else ():
                coefficients(r, f"coeff.{n}", v, sh, m)
    for ent in ("execute", "reply", "migrate", "sudo"):
        if ctx.has(c, ent):
            for var in ctx.variants(c, ent):
                v = ctx.view(c, ent, var)
                for e, fs in v.effects("config"):
                    r.ob(f"fixed.{ent}.{var}", F(e["val"], "norm_coeff") is F(CFG, "norm_coeff"), "the coefficients change after creation", v.where(e))


def infos_in(sh, t):
    """a coefficient looked up for an asset by its string"""
    m = {x: call("mapget", x.a[1], a) for x in walk(t) if x.op == "call" and x.a[0] == "mapget" for a, i in zip(sh.atoms, sh.infos) if x.a[2] is i}
    return subst(t, m) if m else t


def uneven(r, tag, w, h, ps, want, ws, need):
    sh, v = w.sh, w.v
    m = {x: INT(0) for x in ws if holds(h, is_eq(x, INT(0)))}
    need = subst(need, m)
    at = lambda t: subst(w.norm(h, t), m)
    lp = lpsent(h)
    if not r.ob(f"{tag}.lp", bool(lp), "a withdrawal does not require this pool's LP coins", v.where()):
        return
    burns = [p for p in ps if p.kind == "burn"]
    r.ob(f"{tag}.burn", len(burns) == 1 and burns[0].asset is LP and req(at(burns[0].amount), need) and burnfrom(burns[0]), "an imbalanced withdrawal burns another amount than what it takes out", v.where())
    r.ob(f"{tag}.enough", req(need, INT(0)) or any(holds(h, lambda l: l.op in ("le", "lt") and req(at(lin_sub(l.a[1], l.a[0])), lin_sub(x, need))) for x in lp), "less LP is sent than the withdrawal takes out", v.where())
    back = [p for p in ps if p.kind == "native" and p.asset is LP]
    rest = [lin_sub(x, need) for x in lp]
    r.ob(f"{tag}.rest", len(back) <= 1 and all(any(req(at(p.amount), x) for x in rest) and strip(p.to) is SENDER for p in back), "another amount of LP than the rest is returned", v.where())
    if not back:
        r.ob(f"{tag}.kept", holds(h, lambda l: l.op == "eq" and any(req(at(lin_sub(l.a[0], l.a[1])), mul(k, x)) for x in rest for k in (INT(1), INT(-1)))), "the rest of the LP is not returned", v.where())
    for k, x in zip(want, ws):
        mine = [p for p in ps if p.kind == "native" and p.asset is sh.atoms[k]]
        r.ob(f"{tag}.paid{k}", (len(mine) == 1 or not mine and x in m) and all(req(at(p.amount), subst(x, m)) and strip(p.to) is SENDER for p in mine), "another amount than asked for is paid, or to somebody else", v.where())
    r.ob(f"{tag}.only", all(p in burns or p in back or p.kind == "native" and p.asset in [sh.atoms[k] for k in want] for p in ps), "a withdrawal sends something else", v.where())


def coefficients(r, tag, v, sh, m):
    if m.op == "call" and m.a[0] == "coll" or m.op == "coll":
        m = m.a[1] if m.op == "call" else m.a[0]
    if m.op == "call" and len(m.a) > 1 and isinstance(m.a[1], T) and m.a[1].op == "arr":
        m = m.a[1]
    if not r.ob(f"{tag}.list", m.op == "arr" and len(m.a) == sh.n and {fld(x, "0") for x in m.a} == set(sh.atoms), "not every asset has one coefficient", v.where()):
        return
    ks = []
    for x in m.a:
        k = sh.atoms.index(fld(x, "0"))
        t = fld(x, "1")
        ds = {y for y in walk(t) if y.op == "ok" and y.a[0].op == "ok" and y.a[0].a[0].op == "call" and y.a[0].a[0].a[0] == "rawquery" and nsof(y.a[0].a[0].a[2]) == "coins_info" and y.a[0].a[0].a[3] is sh.atoms[k]}
        if r.ob(f"{tag}.decimals", len(ds) == 1, "a coefficient does not depend on its asset's registered decimals", v.where()):
            ks.append(mul(t, call("pow", INT(10), ds.pop())))
    r.ob(f"{tag}.equal", all(req(k, ks[0]) for k in ks), "one whole unit is not the same number of pool units for every asset", v.where())
    r.ob(f"{tag}.exact", ks and any(y.op == "max" or y.op == "call" and y.a[0] == "maxof" for y in walk(ks[0])), "the coefficients are not taken over the largest number of decimals", v.where())


@prop("D12", 60, "per pair: creation accepts only distinct, valid assets (a native coin with a valid denom, a validated token address), names the contract itself and the validated factory, has no LP coin yet and asks the chain for exactly one; afterwards assets, pair type, own address, factory and decimals never change, and the LP coin is set once, from the chain's answer, while there is none")
def d12(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[9:]
        for kinds in TWO + ("N", "NNN", "NNNNNN"):
            for dup in (False, True):
                sh = Shape(ctx, c, kinds)
                infos = [sh.infos[0]] * 2 if dup else sh.infos
                if dup and len(kinds) != 2:
                    continue
                v = ctx.view(c, "instantiate", None, alias=(((sym("msg"), "asset_infos"), arr(*infos)),))
                tag = f"{n}.create.{kinds}{'dup' if dup else ''}"
                if dup or len(kinds) == 1 or len(kinds) > (5 if c == TRANS else 2) or c == TRANS and "T" in kinds:
                    r.ob(f"{tag}.refused", not v.oks, "a pair of the same asset, or of the wrong number or kind of assets, can be created", v.where())
                    continue
                r.ob(f"{tag}.some", bool(v.oks), "no pair can be created", v.where())
                for f, val, end in v.oks:
                    for a, k in zip(sh.atoms, kinds):
                        if k == "T":
                            r.ob(f"{tag}.token", holds(f, lit(isok(call("addr_validate", a)))), "a token's address is not validated", v.where())
                        else:
                            r.ob(f"{tag}.coin", hle(f, INT(3), mklen(a)) and hle(f, mklen(a), INT(128)), "a coin's denom is not validated", v.where())
                    ks = [k for k in end.store if nsof(k[0]) == "config"]
                    for g, (t,) in cases(f, end.store[ks[0]]) if len(ks) == 1 else ():
                        t = t.a[0] if t.op == "good" else ok(t)
                        p = F(t, "pair_info")
                        r.ob(f"{tag}.info", F(p, "asset_infos") is arr(*infos) and simp(g, F(p, "contract_addr")) is SELF and F(p, "liquidity_token") is STR(""), "a pair does not start as the assets, the address and no LP coin", v.where())
                        fa = simp(g, F(t, "factory_addr"))
                        r.ob(f"{tag}.factory", is_validated(fa) and strip(fa) is msg("factory_addr"), "the factory is not the validated one named", v.where())
                    r.ob(f"{tag}.once", len(ks) == 1, "no configuration is stored", v.where())
                    for k in end.store:
                        if nsof(k[0]) == "precisions":
                            ds = [registered(sh, i) for i in range(len(kinds)) if sh.atoms[i] is k[1]]
                            r.ob(f"{tag}.decimals", ds and all(ds[0](t.a[0] if t.op == "good" else ok(t)) for _, (t,) in cases(f, end.store[k])), "an asset's decimals are not the registered ones", v.where())
                for h, ms in outcomes(v):
                    r.ob(f"{tag}.denom", ms is not None and [m.kind for m in ms] == ["MsgCreateDenom"], "a pair does not ask for exactly one LP coin", v.where())
        for ent in ("execute", "reply", "migrate", "sudo"):
            if not ctx.has(c, ent):
                continue
            for var in ctx.variants(c, ent):
                v = ctx.view(c, ent, var)
                for e, fs in v.effects("precisions"):
                    r.ob(f"{n}.{ent}.{var}.precisions", False, "decimals change after creation", v.where(e))
                for e, fs in v.effects("config"):
                    tag = f"{n}.{ent}.{var}"
                    r.ob(f"{tag}.config", e["kind"] == "write" and e["val"] is not None and keeps(e["val"], "factory_addr", CFG), "the factory changes after creation", v.where(e))
                    if e["kind"] != "write" or keeps(e["val"], "pair_info", CFG):
                        r.ob(f"{tag}.info", e["kind"] == "write", "the configuration is removed", v.where(e))
                        continue
                    old = F(CFG, "pair_info")
                    for g, (t,) in cases(e["facts"], e["val"]):
                        p = F(t, "pair_info")
                        if same(p, old):
                            continue
                        r.ob(f"{tag}.info", all(keeps(p, x, old) for x in ("asset_infos", "contract_addr", "pair_type")), "the assets, type or address of a pair change after creation", v.where(e))
                        none = either(is_eq(mklen(F(old, "liquidity_token")), INT(0)), is_eq(F(old, "liquidity_token"), STR("")))
                        r.ob(f"{tag}.lp", ent == "reply" and holds(g, none) and contains(F(p, "liquidity_token"), msg("result")), "the LP coin is set twice, or not from the chain's answer", v.where(e))
                if ent != "reply":
                    r.ob(f"{n}.{ent}.{var}.denom", not [m for m in v.msgs() if m.kind == "MsgCreateDenom"], "another LP coin is created", v.where())


def registered(sh, i):
    """predicate: the term is the asset's decimals as the registry or the token knows them"""

    def p(t):
        if sh.kinds[i] == "T":
            return t.op == "fld" and t.a[1] == "decimals" and isquery(t.a[0], sh.atoms[i], "TokenInfo")
        return t.op == "ok" and t.a[0].op == "ok" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] == "rawquery" and nsof(t.a[0].a[0].a[2]) == "coins_info" and t.a[0].a[0].a[3] is sh.atoms[i]

    return p


# ---------------------------------------------------------------- settings
DAY = INT(86400)


def bounds(h, x):
    """(lower, upper) constants the facts put around the number x"""
    a = rat(x)
    lo, hi = None, None
    for l in alllits(h):
        flip = l.op == "not"
        l = l.a[0] if flip else l
        if l.op not in ("le", "lt"):
            continue
        p, q = rat(lin_sub(l.a[1], l.a[0]) if not flip else lin_sub(l.a[0], l.a[1]))  # p/q >= 0
        if len(q) != 1 or () not in q or len(a[0]) != 1 or len(a[1]) != 1 or () not in a[1]:
            continue
        m = next(iter(a[0]))
        k = p.get(m, 0) / (a[0][m] / a[1][()]) / q[()]
        if not m or set(p) - {m, ()} or not k:
            continue
        b = -p.get((), 0) / q[()] / k
        if k > 0:
            lo = b if lo is None else max(lo, b)
        else:
            hi = b if hi is None else min(hi, b)
    return lo, hi


def within(h, x, lo, hi):
    if lo is not None and rat(x)[0].keys() <= {()} and rat(x)[1].keys() <= {()}:
        c = rat(x)[0].get((), 0) / rat(x)[1][()]
        return lo <= c <= hi
    a, b = bounds(h, x)
    return (lo is None or lo == 0 or lo == 1 and holds(h, neqs(x, INT(0))) or a is not None and a >= lo) and b is not None and b <= hi


def equals(h, t, want):
    return all(req(u, want) for _, u in hoisted(h, t, 8))


def ordered(h, a, b, strict=False, fix=lambda t: t, never=lambda g: False, also=lambda x, y: False):
    """a <= b under h, whatever way it is written; alternatives which never arise are left out"""

    def says(l):
        flip = l.op == "not"
        m = l.a[0] if flip else l
        if m.op not in ("le", "lt") or strict and (m.op == "lt") == flip:
            return False
        x, y = [fix(t) for t in (m.a[::-1] if flip else m.a)]
        return samesign(lin_sub(y, x), lin_sub(b, a)) or req(lin_sub(y, x), lin_sub(b, a)) or also(x, y)

    def p(l):
        return (l.a[0] if l.op == "not" else l).op in ("le", "lt") and all(never(g) or says(x) for g, x in hoisted(h, l, 8))

    return req(a, b) and not strict or holds(h, p)


def ramped(g, a, b, k):
    """neither of the two exceeds k times the other"""
    A = sym("current")
    for x, y in ((a, b), (b, a)):
        h = plus(g, le(x, y))

        def settle_max(t, a, b, x, y):
            m = {}
            for u in walk(t):
                if u.op in ("max", "min") and any(req(p, a) and req(q, b) for p, q in (u.a, u.a[::-1])):
                    m[u] = y if u.op == "max" else x
            return subst(t, m) if m else t

        def plain(t):
            return settle_max(t, a, b, x, y)

        def named(t):
            m = {u: A for u in walk(t) if u.op in ("div", "lin") and req(u, a)}
            t = subst(t, m) if m else t
            return settle_max(t, A, b, *[A if u is a else u for u in (x, y)])

        def never(g):
            """says that y is at most x, while it is at least x (if both, neither exceeds the other)"""

            def says(l):
                m = l.a[0] if l.op == "not" else l
                p, q = m.a if m is l else m.a[::-1]
                return req(p, y) and req(q, x)

            return any((l.a[0] if l.op == "not" else l).op in ("le", "lt") and l not in h and all(says(t) for _, t in hoisted(g, l, 8)) for l in g)

        def ratio(u, w):
            """their quotient is at most k"""
            return req(u, div(y, x)) and req(w, INT(k))

        if h is None or ordered(h, y, mul(INT(k), x), fix=plain, never=never, also=ratio):
            continue
        if not ordered(h, A if y is a else y, mul(INT(k), A if x is a else x), fix=named):
            return False
    return True


def share_case(r, tag, v, g, t, old):
    """a fee share is kept, removed, or within its bounds"""
    s = simp(g, F(t, "fee_share"))
    if old is not None and same(s, F(old, "fee_share")) or s.op == "bad" or plus(g, isok(s)) is None:
        return
    for h, (b, to) in cases(plus(g, isok(s)), F(ok(s), "bps"), F(ok(s), "recipient")):
        r.ob(f"{tag}.share", within(h, b, 0, 1000) and (ordered(h, INT(1), b) or holds(h, neqs(b, INT(0)))), "a fee share of nothing, or of more than a tenth of the fee, is accepted", v.where())
        r.ob(f"{tag}.sharer", is_validated(to), "a fee share goes to an address which is not validated", v.where())


SETTINGS = {
    "astroport_pair": ("track_asset_balances", "fee_share"),
    TAX: ("track_asset_balances", "tax_configs", "tax_config_admin"),
    STABLE: ("init_amp", "next_amp", "init_amp_time", "next_amp_time", "fee_share"),
    PCL: ("pool_params", "pool_state", "track_asset_balances", "fee_share"),
    TRANS: (),
}
SOLVERFNS = tuple(x for x in NUM if x.split("::")[-1] in ("calc_d", "calc_y", "compute_d", "get_xcp"))
STABLE_AMP = SETTINGS[STABLE][:4]


@prop("D10", 60, "per pair: the settings change only through the settings message (and start at creation) and it changes nothing else; fee shares are within bounds and go to validated addresses; sale taxes are at most one half, on coins of the pair, to validated recipients; amplification stays within its bounds, moves at most tenfold and over at least a day, from its current value, and every curve evaluation uses the current value")
def d10(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[9:]
        fields = None
        for ename in ctx.ents[c]:
            if ename == "query" or not ctx.has(c, ename):
                continue
            for var in ctx.variants(c, ename):
                v = ctx.view(c, ename, var, opaque=SOLVERFNS)
                tag = f"{n}.{ename}.{var}"
                for e, fs in v.effects("config"):
                    if e["kind"] != "write" or e["val"] is None:
                        r.ob(f"{tag}.kind", False, "the configuration is removed", v.where(e))
                        continue
                    if ename in ("execute", "reply", "sudo"):
                        fields = fields_of(ctx.prog, cfgtype(ctx, c)) if fields is None else fields
                        moved = changed(e["val"], CFG, fields) if fields else ()
                        if var == "UpdateConfig":
                            r.ob(f"{tag}.only", set(moved) <= set(SETTINGS[c]), f"changing the settings changes {sorted(set(moved) - set(SETTINGS[c]))}", v.where(e))
                        else:
                            bad = [x for x in moved if x in SETTINGS[c] and not (c == PCL and x == "pool_state")]
                            r.ob(f"{tag}.else", not bad, f"settings {bad} change through another message", v.where(e))
                            if "pool_state" in moved:
                                ps, old = F(e["val"], "pool_state"), F(CFG, "pool_state")
                                r.ob(f"{tag}.amp", all(keeps(ps, x, old) for x in ("initial", "future", "initial_time", "future_time")), "the amplification moves through another message", v.where(e))
                    if ename == "execute" and var == "UpdateConfig" or ename == "instantiate":
                        old = CFG if ename == "execute" else None
                        settings(ctx, r, tag, c, v, e, fs, old)
        amps(ctx, r, c)


def cfgtype(ctx, c):
    p = ctx.prog
    ts = [a for a in p.adts if a.startswith(c + "::") and a.endswith("::Config")]
    ts = ts or [a for a in p.adts if a.endswith("state::Config") and a.split("::")[0] in ("astroport_pcl_common", c)]
    return ts[0] if ts else None


def settings(ctx, r, tag, c, v, e, fs, old):
    for h in split(fs, *({STABLE: [lt(NOWS, F(CFG, "next_amp_time")), lt(F(CFG, "init_amp"), F(CFG, "next_amp"))], PCL: [lt(NOWS, F(CFG, "pool_state", "future_time"))]}.get(c, []) if old is not None else [])):
        for g, (t,) in cases(h, e["val"]):
            t = t.a[0] if t.op == "good" else t
            if c in ("astroport_pair", STABLE, PCL):
                share_case(r, tag, v, g, t, old)
            if c == TAX:
                tax_case(r, tag, v, g, t, old)
            if c == STABLE:
                stable_case(r, tag, v, g, t, old)
            if c == PCL:
                pcl_case(r, tag, v, g, t, old)


def tax_case(r, tag, v, g0, t, old):
    g = g0
    m = F(t, "tax_configs")
    if old is None or not same(m, F(old, "tax_configs")):
        infos = F(t, "pair_info", "asset_infos")
        x = F(m, "0") if m.op == "st" else m
        for h, y in iterinfo(x):
            g, (k, u) = plus(g0, *h), (fld(y, "0"), fld(y, "1"))
            r.ob(f"{tag}.rate", within(g, F(u, "tax_rate"), 0, Fraction(1, 2)), "a sale tax of more than one half is accepted", v.where())
            r.ob(f"{tag}.taker", is_validated(simp(g, F(u, "tax_recipient"))), "a sale tax goes to an address which is not validated", v.where())
            r.ob(f"{tag}.coin", holds(g, member(infos, info_of("N", k))), "a sale tax on a coin outside the pair is accepted", v.where())
    a = F(t, "tax_config_admin")
    if old is None or not same(a, F(old, "tax_config_admin")):
        r.ob(f"{tag}.admin", is_validated(simp(g, a)), "the tax administrator is not a validated address", v.where())


def stable_case(r, tag, v, g, t, old):
    new = [F(t, x) for x in STABLE_AMP]
    if old is None:
        a = div(new[1], INT(100))
        r.ob(f"{tag}.first", req(new[0], new[1]) and new[2] is NOWS and within(g, a, 0, 10**6) and (ordered(g, INT(1), a) or holds(g, neqs(msg_amp(g, a), INT(0)))), "a pool starts with an amplification out of bounds", v.where())
        return
    if all(same(x, F(old, y)) for x, y in zip(new, STABLE_AMP)):
        return
    a0, a1, t0, t1 = [F(old, x) for x in STABLE_AMP]
    moving = plus(g, lt(NOWS, t1)) is not None
    cur = add(a0, div(mul(lin_sub(a1, a0), lin_sub(NOWS, t0)), lin_sub(t1, t0))) if moving else a1
    r.ob(f"{tag}.from", equals(g, new[0], cur) and new[2] is NOWS, "the amplification does not move on from its current value", v.where())
    if equals(g, new[1], cur):
        r.ob(f"{tag}.stop", ordered(g, new[3], NOWS), "a stopped amplification still moves", v.where())
        return
    a = div(new[1], INT(100))
    r.ob(f"{tag}.bound", within(g, a, 0, 10**6) and (ordered(g, INT(1), a) or holds(g, neqs(msg_amp(g, a), INT(0)))), "an amplification of zero or beyond the maximum is accepted", v.where())
    r.ob(f"{tag}.tenfold", ramped(g, cur, new[1], 10), "the amplification moves more than tenfold", v.where())
    r.ob(f"{tag}.day", ordered(g, add(NOWS, DAY), new[3]), "the amplification moves within less than a day", v.where())
    r.ob(f"{tag}.rest", ordered(g, add(t0, DAY), NOWS), "the amplification changes course within less than a day", v.where())


def msg_amp(g, a):
    """the atom the number consists of"""
    xs = [x for x in atoms(a)]
    return xs[0] if len(xs) == 1 else a


FEES = dict(mid_fee=(Fraction(5, 10**5), Fraction(1, 100)), out_fee=(Fraction(5, 10**5), Fraction(1, 100)), fee_gamma=(0, 1), repeg_profit_threshold=(0, Fraction(1, 100)), min_price_scale_delta=(0, 1), ma_half_time=(1, 7 * 86400))


def pcl_case(r, tag, v, g, t, old):
    pp, ps = F(t, "pool_params"), F(t, "pool_state")
    was = F(old, "pool_params") if old is not None else None
    for x, (lo, hi) in FEES.items():
        for h, (y,) in cases(g, F(pp, x)):
            if was is not None and same(y, F(was, x)):
                continue
            r.ob(f"{tag}.{x}", within(h, y, lo, hi), f"{x} out of its bounds is accepted", v.where())
    for h, (a, b) in cases(g, F(pp, "mid_fee"), F(pp, "out_fee")):
        if was is None or not (same(a, F(was, "mid_fee")) and same(b, F(was, "out_fee"))):
            r.ob(f"{tag}.order", ordered(h, a, b, strict=True), "the fee at balance can exceed the fee away from it", v.where())
    new = [F(ps, x) for x in ("initial", "future", "initial_time", "future_time")]
    price = F(ps, "price_state")
    if old is None:
        ampbounds(r, tag, v, g, new[1])
        r.ob(f"{tag}.rest", all(ordered(h, x, NOWS) for h, (x,) in cases(g, new[3])), "a new pool's amplification moves", v.where())
        return
    o = F(old, "pool_state")
    r.ob(f"{tag}.price", same(price, F(o, "price_state")), "changing the settings changes prices or profits", v.where())
    was = [F(o, x) for x in ("initial", "future", "initial_time", "future_time")]
    if all(same(x, y) or same_amp(x, y) for x, y in zip(new, was)):
        return
    moving = plus(g, lt(NOWS, was[3])) is not None
    cur = {}
    for x in ("amp", "gamma"):
        a0, a1 = F(was[0], x), F(was[1], x)
        cur[x] = div(add(mul(a0, lin_sub(was[3], NOWS)), mul(a1, lin_sub(NOWS, was[2]))), lin_sub(was[3], was[2])) if moving else a1
    if all(equals(g, F(new[1], x), cur[x]) for x in cur):
        r.ob(f"{tag}.stop", ordered(g, new[3], NOWS), "a stopped amplification still moves", v.where())
        return
    r.ob(f"{tag}.from", new[2] is NOWS and all(equals(g, F(new[0], x), cur[x]) for x in cur), "the amplification does not move on from its current value", v.where())
    ampbounds(r, tag, v, g, new[1])
    for x in cur:
        r.ob(f"{tag}.tenfold.{x}", ramped(g, cur[x], simp(g, F(new[1], x)), 10), "the amplification moves more than tenfold", v.where())
    r.ob(f"{tag}.day", ordered(g, add(NOWS, DAY), new[3]), "the amplification moves within less than a day", v.where())
    r.ob(f"{tag}.again", ordered(g, add(was[2], DAY), NOWS), "the amplification changes course within less than a day", v.where())


def same_amp(x, y):
    return all(same(F(x, n), F(y, n)) for n in ("amp", "gamma")) if x.op in ("st", "upd", "fld", "ok") else False


def ampbounds(r, tag, v, g, x):
    for n, lo, hi in (("amp", Fraction(1, 10), 10**5), ("gamma", Fraction(1, 10**8), Fraction(2, 100))):
        for h, (y,) in cases(g, F(x, n)):
            r.ob(f"{tag}.{n}", within(h, y, lo, hi), f"{n} out of its bounds is accepted", v.where())


AMPFNS = ("astroport_pair_stable::utils::compute_current_amp", "astroport_pcl_common::state::PoolState::get_amp_gamma")
SOLVERS = {STABLE: ("astroport_pair_stable::math::calc_y", "astroport_pair_stable::math::compute_d"), PCL: ("astroport_pcl_common::math::calc_d", "astroport_pcl_common::math::calc_y")}


def amps(ctx, r, c):
    """every evaluation of the curve uses the amplification of the moment"""
    if c not in SOLVERS:
        return
    n = c[9:]
    sh = Shape(ctx, c, "NN")
    for ename in ("execute", "query"):
        for var in ctx.variants(c, ename):
            v = ctx.view(c, ename, var, alias=tuple(sh.alias), opaque=tuple(x for x in NUM if x not in AMPFNS))
            seen = set()
            for f, val, end in v.oks:
                for t in list(alllits(f)) + [val] + list(end.store.values()):
                    for x in walk_deep(t):
                        if x.op == "call" and x.a[0] in SOLVERS[c]:
                            seen.add(x)
            for x in sorted(seen, key=lambda x: x.id):
                good_ = True
                base = F(CFG, "pool_state") if c == PCL else CFG
                t0, t1 = (F(base, "initial_time"), F(base, "future_time")) if c == PCL else (F(base, "init_amp_time"), F(base, "next_amp_time"))
                for h in split(frozenset(), lt(NOWS, t1)):
                    moving = plus(h, lt(NOWS, t1)) is not None and lt(NOWS, t1) in h
                    want = {}
                    for y in ("amp", "gamma") if c == PCL else ("amp",):
                        a0, a1 = (F(base, "initial", y), F(base, "future", y)) if c == PCL else (F(base, "init_amp"), F(base, "next_amp"))
                        want[y] = div(add(mul(a0, lin_sub(t1, NOWS)), mul(a1, lin_sub(NOWS, t0))), lin_sub(t1, t0)) if moving else a1
                    for g in [h]:
                        args = [a.a[0] if a.op == "good" else a for a in x.a[1:]]
                        ok_ = False
                        for a in args:
                            if c == PCL:
                                ok_ = ok_ or a.op in ("st", "alt", "ok", "fld", "upd") and all(req(u, want[y]) for y in want for _, u in hoisted(g, simp(g, F(a, y)), 8))
                            else:
                                ok_ = ok_ or all(req(u, want["amp"]) for _, u in hoisted(g, simp(g, a), 8))
                        good_ = good_ and ok_
                r.ob(f"{n}.{ename}.{var}.uses", good_, f"{x.a[0].split('::')[-1]} is not evaluated at the current amplification", v.where())


# ---------------------------------------------------------------- repegging
REPEG = tuple(x for x in NUM if not x.endswith("::update_price")) + ("astroport_pcl_common::math::math_decimal::half_float_pow",)
PRICES = ("oracle_price", "last_price", "price_scale", "last_price_update", "xcp_profit", "xcp_profit_real")


@prop("D13", 40, "concentrated pools, per shape: the oracle price moves to the last price with the configured half-time, the last price is the trade's, profits are measured over the reserves after the operation and the LP supply, an action which lowers the real profit fails unless amplification is moving, and the price scale moves only towards the oracle by the prescribed step while profits allow it and stay sufficient after it")
def d13(ctx, r):
    for kinds in ("NN", "NT"):
        for i in (0, 1):
            repegs(r, f"{kinds}.swap{i}", Swap(ctx, PCL, kinds, i, opaque=REPEG))
        if kinds == "NN":
            repegs(r, f"{kinds}.provide", Provide(ctx, PCL, kinds, (0, 1), opaque=REPEG))
        repegs(r, f"{kinds}.withdraw", Withdraw(ctx, PCL, kinds))


def repegs(r, tag, w):
    v, sh = w.v, w.sh
    o = F(CFG, "pool_state", "price_state")
    some = False
    for f, val, end in v.oks:
        ks = [k for k in end.store if nsof(k[0]) == "config"]
        if not r.ob(f"{tag}.one", len(ks) == 1, "the pool's state is not stored once", v.where()):
            continue
        for h, ms in sends(v, f, val, *w.assume):
            qs = [lt(F(o, "last_price_update"), NOWS), eq(F(o, "xcp_profit_real"), INT(0)), lt(NOWS, F(CFG, "pool_state", "future_time"))]
            qs += (zeroqs(w) + [isok(F(CFG, "fee_share"))]) if isinstance(w, Swap) else []
            ps = [p for m in ms or () for p in pays(m)]
            for g in split(h, *qs):
                for g2, (t,) in cases(g, end.store[ks[0]]):
                    n = F(t.a[0] if t.op == "good" else ok(t), "pool_state", "price_state")
                    qs = tiny(F(n, "last_price")) if isinstance(w, Provide) else []
                    for g3, new in [c for g3 in split(g2, *qs) for c in cases(g3, *[F(n, x) for x in PRICES])]:
                        if qs and new[1] is not F(o, "last_price") and any(y is F(o, x) and any(z is not y for _, (z,) in cases(g3, F(n, x))) for x, y in zip(PRICES, new) if x != "price_scale"):
                            continue
                        for g4, u in hoisted(g3, tup(*new, *[p.amount for p in ps]), 32):
                            if rounded(w, g4):
                                continue
                            some = True
                            xs = [fld(u, str(k)) for k in range(len(PRICES) + len(ps))]
                            repeg_case(r, tag, w, g4, list(zip(ps, xs[len(PRICES):])), dict(zip(PRICES, xs)))
    r.ob(f"{tag}.some", some, "the operation never succeeds", v.where())


def repeg_case(r, tag, w, h, ps, new):
    v, sh = w.v, w.sh
    o = {x: F(CFG, "pool_state", "price_state", x) for x in PRICES}
    one, params = INT(1), F(CFG, "pool_params")
    swap, provide = isinstance(w, Swap), isinstance(w, Provide)
    eqz = lambda a, e: equal(w, h, a, e)
    same_ = {x: new[x] is o[x] for x in PRICES}
    # reserves and LP supply after the operation
    after, total = [], SUPPLY
    for k in (0, 1):
        x = add(sh.reserve(k), w.amt[k] if provide else w.X if swap and w.i == k else INT(0))
        for p, a in ps:
            if p.asset is sh.atoms[k] and p.kind in ("native", "cw20"):
                x = lin_sub(x, a)
        after.append(dec(k, x))
    for p, a in ps:
        if p.kind in ("mint", "burn"):
            total = (add if p.kind == "mint" else lin_sub)(total, a)
    total = div(total, MILLION)
    first = provide and holds(h, is_eq(SUPPLY, INT(0)))
    if first:
        if same_["last_price"]:
            r.ob(f"{tag}.first", req(new["xcp_profit"], one) and req(new["xcp_profit_real"], one) and same_["price_scale"] and same_["oracle_price"], "profits do not start at one", v.where())
        return
    if not swap and not provide:
        r.ob(f"{tag}.still", all(same_[x] for x in PRICES[:5]), "a withdrawal moves prices", v.where())

    def xcp(scale):
        """the pool's worth per share over the reserves after the operation, at the given price scale"""
        seen = set()
        for t in (new["xcp_profit"], new["xcp_profit_real"]):
            for c in calls(t, "get_xcp"):
                if c in seen or not (c.a[2] is scale or req(w.norm(h, c.a[2]), w.norm(h, scale))):
                    continue
                seen.add(c)
                d = c.a[1].a[0] if c.a[1].op == "ok" else c.a[1]
                if d.op == "call" and d.a[0].endswith("::calc_d") and d.a[1].op == "arr" and len(d.a[1].a) == 2:
                    p0, p1 = d.a[1].a
                    if eqz(p0, after[0]) and eqz(p1, mul(after[1], scale)):
                        return div(c, total)
        return None

    if not swap and not provide:
        x = xcp(o["price_scale"])
        r.ob(f"{tag}.real", x is not None and eqz(new["xcp_profit_real"], x), "the real profit is not measured over the reserves and shares left", v.where())
        return
    if all(same_.values()):
        fixed = lambda x: not any(y.op in ("fld", "ok", "sym", "may", "elem") for y in walk(x))
        r.ob(f"{tag}.skip", holds(h, lambda l: l.op == "lt" and fixed(l.a[1]) and not fixed(l.a[0])), "prices and profits stay although the trade is not tiny", v.where())
        return
    moved = plus(h, lt(o["last_price_update"], NOWS)) is not None
    if moved:
        al = calls(new["oracle_price"], "half_float_pow")
        good_ = len(al) == 1 and req(al[0].a[1], div(lin_sub(NOWS, o["last_price_update"]), F(params, "ma_half_time")))
        r.ob(f"{tag}.oracle", good_ and req(new["oracle_price"], add(mul(o["last_price"], lin_sub(one, ok(al[0]))), mul(o["oracle_price"], ok(al[0])))), "the oracle price does not move to the last price with the half-time", v.where())
    else:
        r.ob(f"{tag}.oracle", same_["oracle_price"], "the oracle price moves twice at the same time", v.where())
    r.ob(f"{tag}.time", holds(h, is_eq(new["last_price_update"], NOWS)) or new["last_price_update"] is NOWS or not moved and same_["last_price_update"], "the time of the oracle price is not recorded", v.where())
    if swap:
        out = dec(w.j, lin_sub(sh.reserve(w.j), INT(0)))
        out = lin_sub(out, after[w.j])
        want = div(dec(w.i, w.X), out) if w.i == 0 else div(out, dec(w.i, w.X))
        wants = [want]
    else:
        share = div(lin_sub(total, div(SUPPLY, MILLION)), total)
        diffs = [lin_sub(dec(k, w.amt[k]), mul(after[k], share)) for k in (0, 1)]
        wants = [div(diffs[0], diffs[1]), div(lin_sub(INT(0), diffs[0]), diffs[1])]
    r.ob(f"{tag}.last", any(eqz(new["last_price"], x) for x in wants), "the last price is not the price of the trade", v.where())
    x1 = xcp(o["price_scale"])
    zero_ = plus(h, neg(eq(o["xcp_profit_real"], INT(0)))) is None
    scaled = not same_["price_scale"]
    if not zero_:
        if not r.ob(f"{tag}.measure", x1 is not None, "profits are not measured over the reserves after the operation", v.where()):
            return
        ramping = plus(h, le(F(CFG, "pool_state", "future_time"), NOWS)) is None
        r.ob(f"{tag}.loss", ramping or ordered(h, o["xcp_profit_real"], x1), "an action which makes a loss succeeds", v.where())
        r.ob(f"{tag}.profit", eqz(new["xcp_profit"], div(mul(o["xcp_profit"], x1), o["xcp_profit_real"])), "the profit does not grow with the real profit", v.where())
    else:
        r.ob(f"{tag}.profit", same_["xcp_profit"], "the profit moves although there was none", v.where())
    real1 = o["xcp_profit_real"] if zero_ else x1
    if provide and not scaled and any(c.a[2] is not o["price_scale"] for c in calls(new["xcp_profit_real"], "get_xcp")):
        return
    if not scaled:
        r.ob(f"{tag}.real", eqz(new["xcp_profit_real"], real1), "the real profit is not the one measured", v.where())
        return
    x2 = xcp(new["price_scale"])
    r.ob(f"{tag}.real", x2 is not None and eqz(new["xcp_profit_real"], x2), "the real profit is not measured at the new price scale", v.where())
    q = div(new["oracle_price"], o["price_scale"])
    scaled_case(r, tag, w, h, o, params, new, q, real1, x2)


def scaled_case(r, tag, w, h, o, params, new, q, real1, x2):
    one, v, found = INT(1), w.v, False
    for norm in (lin_sub(q, one), lin_sub(one, q)):
        for m in [x for x in walk(new["price_scale"]) if x.op == "max"]:
            a = set(m.a[0]) if isinstance(m.a[0], (tuple, frozenset)) else set(m.a)
            least = F(params, "min_price_scale_delta")
            rest = [x for x in a if x is not least]
            if least not in a or len(rest) != 1 or not req(rest[0], div(norm, INT(10))):
                continue
            found = True
            want = div(add(mul(o["price_scale"], lin_sub(norm, m)), mul(m, new["oracle_price"])), norm)
            r.ob(f"{tag}.scale", req(new["price_scale"], want), "the price scale does not move by its step towards the oracle price", v.where())
            r.ob(f"{tag}.far", ordered(h, m, norm), "the price scale moves although it is close to the oracle price", v.where())
    r.ob(f"{tag}.step", found, "the step of the price scale is not the larger of its minimum and a tenth of the distance", v.where())
    half = add(div(lin_sub(new["xcp_profit"], one), INT(2)), F(params, "repeg_profit_threshold"))
    r.ob(f"{tag}.enough", ordered(h, half, lin_sub(real1, one), True), "the price scale moves without enough profit", v.where())
    r.ob(f"{tag}.keep", x2 is not None and ordered(h, add(new["xcp_profit"], one), mul(INT(2), x2), True), "moving the price scale gives away more than half of the profit", v.where())


def fixed(x):
    return not any(y.op in ("fld", "ok", "sym", "may", "elem") for y in walk(x))


def tiny(*ts):
    """the questions whether amounts reach a fixed minimum"""
    out, state = set(), F(CFG, "pool_state", "price_state")
    for t in ts:
        for g, _ in leaves(t):
            for l in alllits(g):
                q = le(*l.a[::-1]) if l.op == "lt" else l
                if q.op == "le" and fixed(q.a[0]) and q.a[0].op != "int" and not fixed(q.a[1]) and not any(contains(q, F(state, x)) for x in ("oracle_price", "xcp_profit", "xcp_profit_real")):
                    out.add(q)
    return sorted(out, key=lambda l: l.id)


def rounded(w, h):
    """some amount traded or charged is zero only because it is tiny"""
    return any(l.op == "eq" and INT(0) in l.a and calls(l, "calc_y") and holds(h, lambda x: x is l) for l in alllits(h))


def nonzero(w, h, *ts):
    """predicate: the literal says that one of the terms, or a whole-unit form of it, is not zero"""

    def p(l):
        if l.op == "not" and l.a[0].op == "eq" and INT(0) in l.a[0].a:
            o = [x for x in l.a[0].a if x is not INT(0)]
        elif l.op in ("le", "lt") and l.a[0].op == "int" and (l.a[0].a[0] > 0 or l.op == "lt" and l.a[0].a[0] == 0):
            o = [l.a[1]]
        else:
            return False
        return len(o) == 1 and all(any(req(y, t) for t in ts) for _, (y,) in cases(h, w.norm(h, o[0])))

    return p


@prop("D15", 60, "curve pairs never trade or grow over an empty side: every successful swap has a non-zero offer and non-zero reserves on both sides before it; every successful deposit leaves no side empty, and a first one puts in something of both")
def d15(ctx, r):
    for c in CURVES:
        for kinds in TWO:
            for i in (0, 1):
                sw = Swap(ctx, c, kinds, i)
                tag = f"{c}.swap.{kinds}{i}"
                os_ = sw.outcomes()
                taxed = [lin_sub(sw.X, mul(sw.X, F(ok(taxes(sw)), "tax_rate")))] if c == TAX else []
                r.ob(f"{tag}.some", bool(os_), "no swap succeeds", sw.v.where())
                for h, _ in os_:
                    r.ob(f"{tag}.offer", holds(h, nonzero(sw, h, sw.X, dec(i, sw.X), *taxed)), "a swap of nothing succeeds", sw.v.where())
                    for k in (0, 1):
                        R = sw.sh.reserve(k)
                        r.ob(f"{tag}.reserve{k}", holds(h, nonzero(sw, h, R, dec(k, R))), "a swap with an empty side succeeds", sw.v.where())
            w = Provide(ctx, c, kinds)
            tag = f"{c}.deposit.{kinds}"
            os_ = w.outcomes()
            r.ob(f"{tag}.some", bool(os_), "no deposit succeeds", w.v.where())
            for h0, ms in os_:
                for h in split(h0, eq(SUPPLY, INT(0))):
                    first = holds(h, is_eq(SUPPLY, INT(0)))
                    for k in (0, 1):
                        a, R = w.amt[k], w.sh.reserve(k)
                        if c == PCL and not first:
                            continue
                        raws = sorted({x for l in alllits(h) for x in walk(l) if w.sh.raw(k, x)}, key=lambda x: x.id) if kinds[k] == "T" else []
                        g = plus(h, *[eq(INT(0), x) for x in raws])
                        if g is not None:
                            r.ob(f"{tag}.side{k}", holds(g, nonzero(w, g, a, dec(k, a), add(a, R), dec(k, add(a, R)))), "a deposit leaves a side of the pool empty" , w.v.where())
