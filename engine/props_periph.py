"""N01 native coin registry, F01 fee granter, O01 oracle, R01 router."""
from check import prop
from rat import req
from rules import *

CFG = ld("config")
OWNED = {"ProposeNewOwner", "DropOwnershipProposal", "ClaimOwnership"}


def others(ctx, c, r, own, enames=("instantiate", "execute", "reply", "migrate", "sudo")):
    """the runs of a contract which are not in `own`"""
    for e in enames:
        if ctx.has(c, e):
            for v in ctx.views(c, e):
                if (v.variant or e) not in own:
                    yield (v.variant or e), v


@prop("N01", 10, "coin registry: decimals are stored only for the denoms named in the message, as given there and between 0 and 18; anyone may register only denoms absent so far whose coins they sent, and gets exactly the coins back; entries are removed only by name; the query returns the stored figure")
def n01(ctx, r):
    c = "astroport_native_coin_registry"
    x = elem(msg("native_coins"))
    for n in ("Add", "Register"):
        v = ctx.view(c, "execute", n)
        es = v.effects("coins_info")
        r.ob(f"{n}.stores", len(es) > 0, "nothing is registered", v.where())
        for e, f in es:
            r.ob(f"{n}.write", e["kind"] == "write" and e["key"] is F(x, "0") and values(f, e["val"]) == [F(x, "1")], "something else than the named denom's decimals is stored", v.where(e))
            r.ob(f"{n}.max", hle(f, F(x, "1"), INT(18)), "more than 18 decimals are accepted", v.where(e))
            if n == "Register":
                r.ob("Register.new", holds(f, lit(neg(isok(may("coins_info", F(x, "0")))))), "a registered denom can be overwritten by anyone", v.where(e))
                r.ob("Register.paid", holds(f, either(member(FUNDS, F(x, "0")), lambda l: l.op == "any" and l.a[0] is FUNDS and l.a[1] is eq(F(x, "0"), F(elem(FUNDS), "denom")))), "a denom can be registered without holding its coins", v.where(e))
        if n == "Register":
            for fs, ms in outcomes(v):
                r.ob("Register.refund", ms is not None and len(ms) == 1 and ms[0].kind == "BankMsg::Send" and ms[0].f("to_address") is SENDER and ms[0].f("amount") is FUNDS, "the coins sent are not returned to the sender", v.where())
        else:
            r.ob("Add.silent", not v.msgs(), "messages are sent", v.where())
    v = ctx.view(c, "execute", "Remove")
    es = v.effects("coins_info")
    r.ob("Remove.removes", len(es) > 0, "nothing is removed", v.where())
    for e, f in es:
        r.ob("Remove.key", e["kind"] == "remove" and e["key"] is elem(msg("native_coins")), "another entry than the named one is removed", v.where(e))
    for n, v in others(ctx, c, r, {"Add", "Register"}):
        r.ob(f"{n}.silent", not v.msgs(), "messages are sent", v.where())
        if n != "Remove":
            r.ob(f"{n}.entries", not v.effects("coins_info"), "registered decimals change elsewhere", v.where())
    v = ctx.view(c, "query", "NativeToken")
    for f, val, _ in v.oks:
        y = val.a[0] if val.op == "json" else val
        r.ob("query", any(z is ld("coins_info", msg("denom")) for z in [y, F(y, "decimals")]), "the query answers another figure", v.where())


@prop("F01", 20, "fee granter: a grant is recorded once per grantee with the amount given to the chain's allowance message (spend limit in the gas denom, granted by the contract), is backed by exactly that amount unless bypassed; a revocation removes the record and the allowance together; coins leave only by TransferCoins with a positive amount of the gas denom; at most two validated admins")
def f01(ctx, r):
    c = "astroport_fee_granter"
    gas = F(CFG, "gas_denom")
    g = ok(call("addr_validate", msg("grantee_contract")))
    v = ctx.view(c, "execute", "Grant")
    es = v.effects("grants")
    r.ob("Grant.records", len(es) > 0, "grants are not recorded", v.where())
    for e, f in es:
        r.ob("Grant.write", e["kind"] == "write" and e["key"] is g and values(f, e["val"]) == [msg("amount")], "another grant is recorded", v.where(e))
        r.ob("Grant.once", holds(f, lit(neg(isok(may("grants", g))))), "an existing grant can be overwritten", v.where(e))
        h = plus(f, neg(msg("bypass_amount_check")))
        r.ob("Grant.backed", h is None or holds(h, is_eq(ok(call("must_pay", INFO, gas)), msg("amount"))), "a grant is not backed by the coins sent", v.where(e))
    for fs, ms in outcomes(v):
        if not r.ob("Grant.one", ms is not None and len(ms) == 1 and ms[0].kind == "MsgGrantAllowance", "a grant does not send exactly one allowance", v.where()):
            continue
        r.ob("Grant.always", without(fs, [e["tok"] for e, _ in es]) is None, "an allowance is granted without being recorded", v.where())
        m = ms[0]
        r.ob("Grant.parties", strip(m.f("granter")) is SELF and strip(m.f("grantee")) is strip(g), "the allowance names other parties", v.where())
        lim = [y for y in walk_deep(m.f("allowance")) if y.op == "st" and y.a[0].endswith("BasicAllowance")]
        r.ob("Grant.limit", len(lim) == 1 and [(F(y, "denom"), F(y, "amount")) for _, y in iterinfo(F(lim[0], "spend_limit"))] == [(gas, msg("amount"))], "the spend limit is not the recorded amount in the gas denom", v.where())
    v = ctx.view(c, "execute", "Revoke")
    es = v.effects("grants")
    r.ob("Revoke.records", len(es) > 0, "the record is not removed", v.where())
    for e, f in es:
        r.ob("Revoke.write", e["kind"] == "remove" and e["key"] is g, "another record changes", v.where(e))
    for fs, ms in outcomes(v):
        if r.ob("Revoke.one", ms is not None and len(ms) == 1 and ms[0].kind == "MsgRevokeAllowance", "a revocation does not revoke exactly one allowance", v.where()):
            r.ob("Revoke.parties", strip(ms[0].f("granter")) is SELF and strip(ms[0].f("grantee")) is strip(g), "another allowance is revoked", v.where())
            r.ob("Revoke.always", without(fs, [e["tok"] for e, _ in es]) is None, "an allowance is revoked without removing the record", v.where())
    v = ctx.view(c, "execute", "TransferCoins")
    for fs, ms in outcomes(v):
        if not r.ob("TransferCoins.one", ms is not None and len(ms) == 1, "not exactly one transfer is made", v.where()):
            continue
        ps = pays(ms[0])
        r.ob("TransferCoins.what", len(ps) == 1 and ps[0].kind == "native" and ps[0].asset is gas and ps[0].amount is msg("amount"), "something else than the given amount of the gas denom leaves", v.where())
        r.ob("TransferCoins.to", len(ps) == 1 and opt_or(fs, ps[0].to, msg("receiver"), SENDER), "coins leave to someone else than the receiver or the sender", v.where())
        r.ob("TransferCoins.positive", holds(fs, neqs(INT(0), msg("amount"))) or hle(fs, INT(1), msg("amount")), "an empty transfer succeeds", v.where())
    for n, w in others(ctx, c, r, {"Grant", "Revoke", "TransferCoins"}):
        r.ob(f"{n}.silent", not w.msgs(), "messages are sent", w.where())
        r.ob(f"{n}.grants", not w.effects("grants"), "records change elsewhere", w.where())
    old = F(CFG, "admins")
    for e_, n in (("execute", "UpdateAdmins"), ("instantiate", None)):
        v = ctx.view(c, e_, n)
        n = n or e_
        es = v.effects("config")
        r.ob(f"{n}.stores", len(es) > 0, "the settings are not stored", v.where())
        for e, f in es:
            a = F(e["val"], "admins")
            names = msg("admins") if n == "instantiate" else msg("add")
            for h, x in iterinfo(a):
                r.ob(f"{n}.admins", is_validated(x) and strip(x) is elem(names) or n != "instantiate" and x is elem(old), "an admin is neither an old one nor a validated named address", v.where(e))
            r.ob(f"{n}.max", any(hle(f, y, INT(2)) for y in {mklen(a)} | {z for z in alllens(f)}), "more than two admins are accepted", v.where(e))
            if n == "UpdateAdmins":
                rm = ok(call("addr_validate", elem(msg("remove"))))
                gone = all(holds(h | f, lambda l: l.op == "not" and (l.a[0].op == "contains" and l.a[0].a[1] is x and any(y is rm for _, y in iterinfo(l.a[0].a[0])) or l.a[0].op == "any" and l.a[0].a[0] is msg("remove") and contains(l.a[0], x))) for h, x in iterinfo(a))
                r.ob("UpdateAdmins.removed", gone, "a removed admin can stay", v.where(e))
    for n, w in others(ctx, c, r, {"instantiate", "migrate"}):
        for e, f in w.effects("config"):
            r.ob(f"{n}.gas_denom", keeps(e["val"], "gas_denom", CFG), "the gas denom changes", w.where(e))


def chained(l, off, ask):
    """the fact makes every operation but the first offer the asset the one before asks for"""
    ts = list(walk(l, facts=True))
    if off not in ts:
        return False
    for y in ts:
        if y.op == "phi" and y in PHI:
            if PHI[y][1] is ask and holds([l], asset_eq(off, y)):
                return True
            if PHI[y][1] is good(ask) and PHI[y][0] is BAD:
                h = plus([l], isok(y))
                if h is not None and holds(h, asset_eq(off, ok(y))):
                    return True
        elif y is not ask and y.op == "pay" and y.a[1:] == ask.a[1:] and holds([l], asset_eq(off, y)):
            return True
    return False


def alllens(fs):
    for l in alllits(fs):
        for y in walk(l):
            if y.op == "len":
                yield y


@prop("O01", 12, "oracle: an update needs at least a day since the last one, stores the pair's current cumulative prices and the time, and averages exactly (new - old cumulative price of the same ordered pair of assets) / elapsed seconds; a consultation multiplies the amount by the average of the token asked for and scales the pair's precision out, or asks the pair itself while the average is zero; the pair is the one the factory names and does not change")
def o01(ctx, r):
    c = "astroport_oracle"
    last = ld("price_last")
    pairc = F(CFG, "pair", "contract_addr")
    v = ctx.view(c, "execute", "Update")
    es = v.effects("price_last")
    r.ob("Update.stores", len(es) > 0, "prices are not stored", v.where())
    for f, _, _ in v.oks:
        r.ob("Update.always", without(f, [e["tok"] for e, _ in es]) is None, "an update can store nothing", v.where())
    for e, f in es:
        el = lin_sub(NOW, F(last, "block_timestamp_last"))
        r.ob("Update.period", hle(f, INT(86400), el), "an update is accepted within a day of the last one", v.where(e))
        r.ob("Update.time", F(e["val"], "block_timestamp_last") is NOW, "another time is recorded", v.where(e))
        cp = F(e["val"], "cumulative_prices")
        r.ob("Update.prices", qfield(cp, "cumulative_prices", pairc, "CumulativePrices"), "something else than the pair's cumulative prices is stored", v.where(e))
        x, o = elem(cp), elem(F(last, "cumulative_prices"))
        its = iterinfo(F(e["val"], "average_prices"))
        r.ob("Update.average", len(its) > 0, "no averages are computed", v.where(e))
        for h, a in its:
            for k in ("0", "1"):
                r.ob(f"Update.asset{k}", F(a, k) in (F(x, k), F(o, k)), "an average is filed under other assets", v.where(e))
                r.ob(f"Update.match{k}", holds(h | f, asset_eq(F(x, k), F(o, k))), "cumulative prices of different assets are subtracted", v.where(e))
            val = F(a, "2")
            r.ob("Update.formula", val.op == "div" and val.a[1] is el and (val.a[0].op == "call" and val.a[0].a[0].endswith("wrapping_sub") and val.a[0].a[1:] == (F(x, "2"), F(o, "2")) or val.a[0] is lin_sub(F(x, "2"), F(o, "2"))), "the average is not the price increase over the elapsed seconds", v.where(e))
    v = ctx.view(c, "query", "Consult")
    tok, amt = msg("token"), msg("amount")
    n = 0
    for f, val, _ in v.oks:
        y = val.a[0] if val.op == "json" else val
        for h, t in iterinfo(y):
            g = refine(f | h)
            if g is None or t.op in ("bad",):
                continue
            n += 1
            a = elem(F(last, "average_prices"))
            r.ob("Consult.token", holds(g, asset_eq(F(a, "0"), tok)), "another token's price is used", v.where())
            r.ob("Consult.asset", F(t, "0") is F(a, "1"), "the price is reported for another asset", v.where())
            for z in values(g, F(t, "1")):
                prec = ld("precisions", tok)
                one = call("pow", INT(10), prec)
                twap = div(mul(amt, F(a, "2")), INT(10**6))
                if plus(g, neg(eq(INT(0), F(a, "2")))) is not None and plus(g, eq(INT(0), F(a, "2"))) is None:
                    r.ob("Consult.twap", req(z, twap), "the answer is not amount * average / 10^6", v.where())
                else:
                    q = [u for u in walk(z) if u.op == "fld" and u.a[1] == "return_amount"]
                    good_ = len(q) == 1 and isquery(q[0].a[0], pairc, "Simulation") and F(qcall(q[0].a[0])[1], "offer_asset", "info") is tok and req(F(qcall(q[0].a[0])[1], "offer_asset", "amount"), one)
                    r.ob("Consult.spot", good_ and req(z, div(mul(amt, q[0]), one)), "the fallback is not the pair's price of one token times the amount", v.where())
                    r.ob("Consult.spot.only", holds(g, is_eq(INT(0), F(a, "2"))), "the pair's spot price is used although an average exists", v.where())
    r.ob("Consult.answers", n > 0, "consultation has no answer", v.where())
    v = ctx.view(c, "instantiate")
    es = v.effects("config")
    r.ob("init.stores", len(es) > 0, "the settings are not stored", v.where())
    for e, f in es:
        fac = F(e["val"], "factory")
        r.ob("init.factory", is_validated(fac) and strip(fac) is msg("factory_contract"), "another factory is stored", v.where(e))
        r.ob("init.pair", isquery(F(e["val"], "pair"), fac, "Pair", asset_infos=msg("asset_infos")), "the pair is not the factory's for the given assets", v.where(e))
    for n, w in others(ctx, c, r, {"instantiate"}):
        r.ob(f"{n}.config", not w.effects("config"), "the settings change", w.where())
        r.ob(f"{n}.silent", not w.msgs(), "messages are sent", w.where())


@prop("R01", 30, "router: a route is 1..=limit chained pair swaps; each is executed in order by the router itself with its whole balance of the offered asset on the pair the factory names, with the user's spread limit; only the last pays the validated receiver or the user; the receiver's balance before and the minimum are recorded, and the call fails unless it grew by at least the minimum; quotes chain each pair's answer")
def r01(ctx, r):
    c = "astroport_router"
    rep = ctx.view(c, "reply")
    ids = {l.a[0].a[0] if l.a[0].op == "int" else l.a[1].a[0] for f, _, _ in rep.oks for l in alllits(f) if l.op == "eq" and F(mk("sym", "msg"), "id") in l.a and any(x.op == "int" for x in l.a)}
    r.ob("reply.ids", len(ids) == 1 and 0 not in ids, "the reply does not accept exactly one message", rep.where())
    rd = ld("reply_data")
    for f, val, _ in rep.oks:
        r.ob("reply.success", holds(f, lit(isok(msg("result")))), "a failed swap is accepted", rep.where())
        mn = F(rd, "minimum_receive")
        data = ok(F(val, "data"))
        amt_ = F(data.a[0] if data.op == "json" else data, "return_amount")
        for g, (amt,) in cases(f, amt_):
            r.ob("reply.amount", isbalance(f, add(amt_, F(rd, "prev_balance")), F(rd, "receiver"), F(rd, "asset_info")), "the amount received is not the growth of the receiver's balance", rep.where())
            h = plus(g, isok(mn))
            r.ob("reply.minimum", h is None or hle(h, ok(mn), amt), "less than the minimum is accepted", rep.where())
    for name in ("ExecuteSwapOperations", "Receive"):
        v = ctx.view(c, "execute", name)
        if name == "Receive":
            hook = ok(call("from_json", msg("0", "msg")))
            p = lambda k: pay(hook, "ExecuteSwapOperations", k)
            user = msg("0", "sender")
        else:
            p, user = msg, SENDER
        ops, to = p("operations"), p("to")
        x = elem(ops)
        off, ask = pay(x, "AstroSwap", "offer_asset_info"), pay(x, "AstroSwap", "ask_asset_info")
        lst = ok(call("last", ops))
        r.ob(f"{name}.possible", len(v.oks) > 0, "swaps always fail", v.where())
        es = v.effects("reply_data")
        for f, val, _ in v.oks:
            r.ob(f"{name}.nonempty", holds(f, neqs(INT(0), mklen(ops))) or hle(f, INT(1), mklen(ops)), "an empty route is accepted", v.where())
            r.ob(f"{name}.limit", holds(f, lambda l: l.op in ("le", "lt") and l.a[0] is mklen(ops) and l.a[1].op == "int"), "a route has no length limit", v.where())
            r.ob(f"{name}.kind", holds(f, lit(is_variant(x, "AstroSwap"))), "an operation which is not a pair swap is accepted", v.where())
            r.ob(f"{name}.chain", any(chained(l, off, ask) for l in f), "operations need not be chained", v.where())
            r.ob(f"{name}.recorded", len(es) > 0 and without(f, [e["tok"] for e, _ in es]) is None, "the receiver's balance is not recorded before the swaps", v.where())
            for g, resp in leaves(val):
                r.ob(f"{name}.all", covers(fld(resp, "messages"), ops), "not every operation is executed, in order", v.where())
        for m in v.msgs():
            e = m.exec()
            if not r.ob(f"{name}.self", e is not None and e[0] is SELF and e[1].op == "st" and e[1].a[1] == "ExecuteSwapOperation", "something else than the router's own swap step is executed", v.where()):
                continue
            b = e[1]
            r.ob(f"{name}.operation", F(b, "operation") is x, "another operation is executed", v.where())
            r.ob(f"{name}.spread", F(b, "max_spread") is p("max_spread"), "the user's spread limit is not passed on", v.where())
            r.ob(f"{name}.single", F(b, "single") is eq(mklen(ops), INT(1)), "a step is wrongly marked as the only one", v.where())
            pos, n = mk("pos", ops), mklen(ops)
            lasts = {eq(pos, add(n, INT(-1))), eq(pos, sub(n, INT(1))), eq(add(pos, INT(1)), n)}
            for g, (t, s) in cases(m.facts, F(b, "to"), m.sub if m.sub is not None else mk("unit")):
                if holds(g, lambda l: l in lasts):
                    r.ob(f"{name}.last.to", isok(t) is TRUE and opt_or(g, ok(t), to, user), "the proceeds go to someone else than the receiver or the user", v.where())
                    h = plus(g, isok(to))
                    r.ob(f"{name}.last.valid", h is None or all(is_validated(y) for y in values(h, ok(t))), "the receiver is not validated", v.where())
                    r.ob(f"{name}.last.reply", m.sub is not None and F(s, "reply_on").op == "st" and F(s, "reply_on").a[1] in ("Success", "Always") and F(s, "id").op == "int" and F(s, "id").a[0] in ids, "the minimum is not checked after the last swap", v.where())
                else:
                    r.ob(f"{name}.mid.to", holds(g, lambda l: neg(l) in lasts) and isok(t) is FALSE, "an intermediate step pays out of the router", v.where())
        for e, f in es:
            rv = F(e["val"], "receiver")
            r.ob(f"{name}.rec.to", opt_or(f, rv, to, user), "another receiver is recorded", v.where(e))
            ai = F(e["val"], "asset_info")
            h = plus(f, is_variant(lst, "AstroSwap"))
            r.ob(f"{name}.rec.asset", h is not None and values(h, ai) == [pay(lst, "AstroSwap", "ask_asset_info")], "another asset than the last one asked for is recorded", v.where(e))
            r.ob(f"{name}.rec.balance", h is not None and all(isbalance(g, F(e["val"], "prev_balance"), rv, a) for g, (a,) in cases(h, ai)), "something else than the receiver's balance is recorded", v.where(e))
            r.ob(f"{name}.rec.min", F(e["val"], "minimum_receive") is p("minimum_receive"), "another minimum is recorded", v.where(e))
    v = ctx.view(c, "execute", "ExecuteSwapOperation")
    op = msg("operation")
    off, ask = pay(op, "AstroSwap", "offer_asset_info"), pay(op, "AstroSwap", "ask_asset_info")
    r.ob("step.possible", len(v.oks) > 0, "swap steps always fail", v.where())
    kinds = set()
    for fs, ms in outcomes(v):
        r.ob("step.self", holds(fs, eqs(SELF)), "others can execute a step", v.where())
        if not r.ob("step.one", ms is not None and len(ms) == 1, "a step does not make exactly one swap", v.where()):
            continue
        for p in pays(ms[0]):
            if p.kind == "funds":
                r.ob("step.native", p.asset is pay(off, "NativeToken", "denom"), "another coin is offered", v.where())
                b, pair = p.extra, p.to
                r.ob("step.native.offer", F(b, "offer_asset", "info") is off and F(b, "offer_asset", "amount") is p.amount, "the offer misstates the coins sent", v.where())
            elif p.kind == "cw20send":
                r.ob("step.token", p.asset is pay(off, "Token", "contract_addr"), "another token is offered", v.where())
                b, pair = (p.extra.a[0] if p.extra.op == "json" else p.extra), p.to
            else:
                r.ob("step.kind", False, "something else than a swap is sent", v.where())
                continue
            kinds.add(p.kind)
            r.ob("step.pair", qfield(strip(pair), "contract_addr", F(CFG, "astroport_factory"), "Pair") and [y for _, y in iterinfo(F(qcall(strip(pair).a[0])[1], "asset_infos"))] in ([off, ask], [ask, off]), "the pair is not the factory's for the two assets", v.where())
            r.ob("step.amount", isbalance(p.facts, p.amount, SELF, off), "not the router's whole balance is offered", v.where())
            r.ob("step.ask", b.op == "st" and b.a[1] == "Swap" and F(b, "ask_asset_info") is good(ask), "another asset is asked for", v.where())
            r.ob("step.to", F(b, "to") is msg("to"), "the proceeds go elsewhere", v.where())
            r.ob("step.spread", F(b, "max_spread") is msg("max_spread"), "the spread limit is not passed on", v.where())
            h = plus(p.facts, msg("single"))
            r.ob("step.belief", h is None or all(isok(y) is FALSE for y in values(h, F(b, "belief_price"))), "a single swap's spread check is disabled", v.where())
    r.ob("step.kinds", kinds == {"funds", "cw20send"}, "a kind of asset cannot be swapped", v.where())
    for name, q, src, qn, outf in (("SimulateSwapOperations", "offer_amount", "amount", "Simulation", "return_amount"), ("ReverseSimulateSwapOperations", "ask_amount", None, "ReverseSimulation", "offer_amount")):
        v = ctx.view(c, "query", name)
        x = elem(msg("operations"))
        off, ask = pay(x, "AstroSwap", "offer_asset_info"), pay(x, "AstroSwap", "ask_asset_info")
        for f, val, _ in v.oks:
            y = val.a[0] if val.op == "json" else val
            y = F(y, src) if src else y
            good_ = y.op == "phi" and y in PHI and PHI[y][0] is msg(q)
            s = PHI[y][1] if good_ else None
            good_ = good_ and s.op == "fld" and s.a[1] == outf and qcall(s.a[0]) is not None and qcall(s.a[0])[1].a[1] == qn
            if r.ob(f"{name}.chain", good_, "the quote does not chain the pairs' answers", v.where()):
                con, b = qcall(s.a[0])
                r.ob(f"{name}.pair", qfield(con, "contract_addr", F(CFG, "astroport_factory"), "Pair"), "another pair is asked", v.where())
                if qn == "Simulation":
                    good_ = F(b, "offer_asset", "info") is off and F(b, "offer_asset", "amount") is y and F(b, "ask_asset_info") in (good(ask), BAD)
                else:
                    good_ = F(b, "ask_asset", "info") is ask and F(b, "ask_asset", "amount") is y and F(b, "offer_asset_info") in (good(off), BAD)
                r.ob(f"{name}.asks", good_, "the pair is asked another question", v.where())
    for n, w in others(ctx, c, r, {"ExecuteSwapOperations", "Receive", "ExecuteSwapOperation"}):
        r.ob(f"{n}.silent", not w.msgs(), "messages are sent", w.where())
    for n, w in others(ctx, c, r, {"ExecuteSwapOperations", "Receive"}):
        r.ob(f"{n}.reply_data", n == "instantiate" or not any(e["kind"] == "write" for e, _ in w.effects("reply_data")), "the recorded swap changes elsewhere", w.where())


def same_members(x, src, each):
    """the collection x is each() of every element of src, and nothing else"""
    return covers(x, src) and all(each(y) for _, y in iterinfo(x))


@prop("W01", 16, "admin proxy (whitelist): instantiation stores exactly the validated admins and the given mutability; Execute, by an admin only, sends exactly the given messages, each once in order, and writes nothing; Freeze and UpdateAdmins, by an admin while the list is mutable, store nothing but an immutable list of the same admins, or exactly the validated new admins with the mutability as it was, and send nothing; no other entry writes or sends")
def w01(ctx, r):
    c = "astroport_whitelist"
    NS = "admin_list"
    L = ld(NS)
    newadmins = lambda x: same_members(x, msg("admins"), lambda y: strip(y) is elem(msg("admins")) and is_validated(y))

    def state(v, f, val, st, tag, fits):
        ws = {nsof(k[0]): t for k, t in st.store.items()}
        ws.pop("contract_info", None) if v.entry != "execute" else None
        r.ob(f"{tag}.nothing else", set(ws) <= {NS}, "something besides the list of admins is written", v.where())
        x = ok(ws[NS]) if NS in ws else None
        r.ob(f"{tag}.stored", fits(x), "the list of admins is not as it should be afterwards", v.where())

    def silent(v, val, tag):
        m = F(val, "messages")
        r.ob(f"{tag}.silent", m.op == "arr" and not m.a, "a message is sent", v.where())

    admin = lambda h: holds(h, memberof(F(L, "admins"), lambda y: y is SENDER))
    v = ctx.view(c, "instantiate", None)
    for f, val, st in v.oks:
        state(v, f, val, st, "instantiate", lambda x: x is not None and newadmins(F(x, "admins")) and F(x, "mutable") is msg("mutable"))
        silent(v, val, "instantiate")
    for n in ctx.variants(c, "execute"):
        v = ctx.view(c, "execute", n)
        r.ob(f"{n}.some", bool(v.oks), "it never succeeds", v.where())
        for f, val, st in v.oks:
            r.ob(f"{n}.admin", admin(f), "someone else than an admin may do this", v.where())
            if n == "Execute":
                state(v, f, val, st, n, lambda x: x is None or x is L)
                plain_ = lambda y: y is elem(msg("msgs")) or y.op == "st" and F(y, "msg") is elem(msg("msgs")) and is_variant(F(y, "reply_on"), "Never") is not False
                r.ob(f"{n}.sent", same_members(F(val, "messages"), msg("msgs"), plain_), "the messages sent are not those given", v.where())
                continue
            r.ob(f"{n}.mutable", holds(f, lit(F(L, "mutable"))), "a frozen list of admins can be changed", v.where())
            silent(v, val, n)
            if n == "Freeze":
                state(v, f, val, st, n, lambda x: x is not None and same(F(x, "admins"), F(L, "admins")) and F(x, "mutable") is FALSE)
            elif n == "UpdateAdmins":
                state(v, f, val, st, n, lambda x: x is not None and newadmins(F(x, "admins")) and same(F(x, "mutable"), F(L, "mutable")))
            else:
                r.ob(f"{n}.known", False, "an action which changes the proxy in an unknown way", v.where())
    for e in ("sudo", "migrate", "reply"):
        for v in (ctx.views(c, e) if ctx.has(c, e) else ()):
            ef = [x for x, _ in v.effects(NS)]
            r.ob(f"{e}.silent", not ef and not v.msgs(), "a callback changes the admins or sends something", v.where())
