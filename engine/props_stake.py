"""S01 staking shares, S02 staking set-up and queries, T01 balance tracker."""
from check import prop
from rules import *

CFG = ld("config")
ASTRO, XASTRO = F(CFG, "astro_denom"), F(CFG, "xastro_denom")


def js(t):
    return t.a[0] if t.op == "json" else t


@prop("S01", 30, "staking: on every path of enter/leave the messages are exactly mint(+minimum lock)/deliver or burn/pay; minted = paid*shares/(balance-paid) rounded down (first stake: paid-1000 with 1000 locked in the contract), paid out = burned*balance/shares rounded down; recipients are the chosen receiver, hook contract or the sender")
def s01(ctx, r):
    c = "astroport_staking"
    paid = ok(call("must_pay", INFO, ASTRO))
    bal = F(ok(call("balance", SELF, ASTRO)), "amount")
    sup = F(ok(call("supply", XASTRO)), "amount")
    dep = sub(bal, paid)
    ratio = div(mul(paid, sup), dep)
    MINS = INT(1000)
    for name in ("Enter", "EnterWithHook"):
        v = ctx.view(c, "execute", name)
        n = f"{c}.{name}"
        r.ob(f"{n}.stateless", not v.effects(), "staking keeps no per-user state", v.where())
        first = normal = 0
        for case, assume in (("first", [eq(sup, INT(0))]), ("empty", [neg(eq(sup, INT(0))), eq(dep, INT(0))]), ("normal", [neg(eq(sup, INT(0))), neg(eq(dep, INT(0)))])):
            outs = outcomes(v, *assume)
            r.ob(f"{n}.{case}.reachable", len(outs) > 0, "staking always fails in this situation", v.where())
            for fs, ms in outs:
                if not r.ob(f"{n}.{case}.fixed", ms is not None, "the messages of a stake are not a fixed list", v.where()):
                    continue
                want = ratio if case == "normal" else sub(paid, MINS)
                ps = [p for m in ms for p in pays(m)]
                mints = [p for p in ps if p.kind == "mint"]
                outs_ = [p for p in ps if p.kind != "mint"]
                r.ob(f"{n}.{case}.shape", len(ps) == len(ms) and len(outs_) == 1 and ps[-1] is outs_[0], "a stake does something else than mint and then deliver once", v.where())
                r.ob(f"{n}.{case}.mints", len(mints) == (1 if case == "normal" else 2), "wrong number of mints", v.where())
                for p in mints:
                    r.ob(f"{n}.{case}.mint.denom", p.asset is XASTRO and p.to is SELF, "minted something else than xASTRO to the contract", v.where())
                total = INT(0)
                for p in mints:
                    for x in values(fs, p.amount)[:1]:
                        total = add(total, x)
                r.ob(f"{n}.{case}.mint.total", total is (want if case == "normal" else paid) and all(len(values(fs, p.amount)) == 1 for p in mints), "minted shares differ from the share of the deposit", v.where())
                for p in outs_:
                    r.ob(f"{n}.{case}.deliver.amount", p.asset is XASTRO and values(fs, p.amount) == [want], "delivered shares differ from the staker's part", v.where())
                    r.ob(f"{n}.{case}.deliver.nonzero", holds(fs, neqs(INT(0), want)) or holds(fs, le_lit(INT(1), want)), "a stake can deliver no shares", v.where())
                    if name == "Enter":
                        r.ob(f"{n}.deliver.to", p.kind == "native" and opt_or(fs, p.to, msg("receiver"), SENDER), "shares go to someone else than the receiver or the sender", v.where())
                    else:
                        r.ob(f"{n}.deliver.to", p.kind == "funds" and p.to is strip(msg("contract_address")) and p.extra is msg("msg"), "shares go elsewhere than with the hook message to the named contract", v.where())
    v = ctx.view(c, "execute", "Leave")
    n = f"{c}.Leave"
    got = ok(call("must_pay", INFO, XASTRO))
    r.ob(f"{n}.stateless", not v.effects(), "unstaking keeps no per-user state", v.where())
    outs = outcomes(v)
    r.ob(f"{n}.reachable", len(outs) > 0, "unstaking always fails", v.where())
    for fs, ms in outs:
        if not r.ob(f"{n}.fixed", ms is not None, "the messages of an unstake are not a fixed list", v.where()):
            continue
        ps = [p for m in ms for p in pays(m)]
        burns = [p for p in ps if p.kind == "burn"]
        sends = [p for p in ps if p.kind == "native" and p.asset is ASTRO]
        rest = [p for p in ps if p not in burns and p not in sends]
        r.ob(f"{n}.burn", len(burns) == 1 and burns[0].asset is XASTRO and burns[0].amount is got, "not exactly the xASTRO received is burned", v.where())
        r.ob(f"{n}.pay", len(sends) == 1 and sends[0].amount is div(mul(got, bal), sup), "the payout is not the burned part of the ASTRO held", v.where())
        r.ob(f"{n}.to", all(opt_or(fs, p.to, msg("receiver"), SENDER) for p in sends), "ASTRO goes to someone else than the receiver or the sender", v.where())
        r.ob(f"{n}.rest", len(ps) == len(ms) and all(p.kind == "native" and p.asset is XASTRO and p.to is SELF for p in rest), "an unstake sends something else away", v.where())
    # the data returned with the response states what happened
    for name, a, b in (("Enter", paid, None), ("Leave", div(mul(got, bal), sup), got)):
        v = ctx.view(c, "execute", name)
        for f, val, _ in v.oks:
            for g, resp in leaves(val):
                d = js(ok(fld(resp, "data")))
                r.ob(f"{c}.{name}.data", F(d, "astro_amount") is a and (b is None or F(d, "xastro_amount") is b), "the returned data misstates the amounts", v.where())


@prop("S02", 18, "staking set-up and queries: the xASTRO denom is set only by the reply to the contract's own denom creation, the tracker only by the reply to its own instantiation and then hooked to that denom; no other write touches either; queries read the bank or forward to the tracker with the caller's address and time")
def s02(ctx, r):
    c = "astroport_staking"
    TD = ld("tracker_data")
    for v in list(ctx.views(c, "execute")) + list(ctx.views(c, "migrate")):
        for e, f in v.effects():
            r.ob(f"{c}.{v.variant or v.entry}.frame", nsof(e["item"]) == "contract_info", "state changes outside set-up", v.where(e))
    ids = {m.kind: F(m.sub, "id") for w in (ctx.view(c, "instantiate"), ctx.view(c, "reply")) for m in w.msgs() if m.sub is not None and F(m.sub, "reply_on").op == "st" and F(m.sub, "reply_on").a[1] in ("Success", "Always")}
    ID1, ID2 = ids["MsgCreateDenom"], ids["WasmMsg::Instantiate"]
    r.ob(f"{c}.ids", ID1 is not ID2, "the two replies cannot be told apart", "")
    v = ctx.view(c, "instantiate")
    for e, f in v.effects("config"):
        r.ob(f"{c}.init.denom", F(e["val"], "astro_denom") is msg("deposit_token_denom") and F(e["val"], "xastro_denom") is STR(""), "the deposit denom is not the one given, or xASTRO is preset", v.where(e))
    for e, f in v.effects("tracker_data"):
        for k, a in (("token_factory_addr", "token_factory_addr"), ("admin", "tracking_admin")):
            r.ob(f"{c}.init.{k}", strip(F(e["val"], k)) is msg(a) and holds(f, lit(isok(call("addr_validate", msg(a))))), "a tracker address is not the validated one given", v.where(e))
        r.ob(f"{c}.init.code", F(e["val"], "code_id") is msg("tracking_code_id"), "another code id is stored", v.where(e))
    outs = outcomes(v)
    for fs, ms in outs:
        r.ob(f"{c}.init.create", ms is not None and [m.kind for m in ms] == ["MsgCreateDenom"] and ms[0].f("sender") is SELF, "set-up does not just create the denom", v.where())
        r.ob(f"{c}.init.reply", ms is not None and ms[0].sub is not None and F(ms[0].sub, "id") is ID1, "the denom creation is not answered by the denom reply", v.where())
        r.ob(f"{c}.init.supply", holds(fs, neqs(INT(0), F(ok(call("supply", msg("deposit_token_denom"))), "amount"))), "a token without supply is accepted for staking", v.where())
    v = ctx.view(c, "reply")
    rid = F(mk("sym", "msg"), "id")
    for e, f in v.effects():
        ns = nsof(e["item"])
        r.ob(f"{c}.reply.ns.{ns}", ns in ("config", "tracker_data"), "a reply writes other state", v.where(e))
        if ns == "config":
            r.ob(f"{c}.reply.denom.id", holds(f, is_eq(rid, ID1)), "the denom is set by another reply", v.where(e))
            x = F(e["val"], "xastro_denom")
            r.ob(f"{c}.reply.denom.value", x.op == "fld" and x.a[1] == "new_token_denom" and contains(x, mk("sym", "msg")) and keeps(e["val"], "astro_denom", CFG), "the denom is not the one just created", v.where(e))
        else:
            r.ob(f"{c}.reply.tracker.id", holds(f, is_eq(rid, ID2)), "the tracker is set by another reply", v.where(e))
            x = F(e["val"], "tracker_addr")
            r.ob(f"{c}.reply.tracker.value", x.op == "fld" and x.a[1] == "contract_address" and contains(x, mk("sym", "msg")) and all(keeps(e["val"], k, TD) for k in ("code_id", "admin", "token_factory_addr")), "the tracker is not the one just instantiated", v.where(e))
    for f, _, _ in v.oks:
        r.ob(f"{c}.reply.known", holds(f, either(is_eq(rid, ID1), is_eq(rid, ID2))), "an unknown reply succeeds", v.where())
    seen = set()
    for m in v.msgs():
        seen.add(m.kind)
        if m.kind == "WasmMsg::Instantiate":
            r.ob(f"{c}.reply.inst", m.f("code_id") is F(TD, "code_id") and m.f("admin") in (good(F(TD, "admin")),) and m.sub is not None and F(m.sub, "id") is ID2, "the tracker is instantiated with other code, admin or reply", v.where())
            x = js(m.f("msg"))
            r.ob(f"{c}.reply.inst.msg", F(x, "tokenfactory_module_address") is F(TD, "token_factory_addr") and F(x, "tracked_denom").op == "fld" and F(x, "tracked_denom").a[1] == "new_token_denom", "the tracker tracks another denom", v.where())
        elif m.kind == "MsgSetBeforeSendHook":
            r.ob(f"{c}.reply.hook", m.f("denom") is XASTRO and m.f("cosmwasm_address").op == "fld" and m.f("cosmwasm_address").a[1] == "contract_address", "the send hook is not the new tracker on xASTRO", v.where())
        else:
            r.ob(f"{c}.reply.msg.{m.kind}", m.kind == "MsgSetDenomMetadata", "a reply sends something else", v.where())
    r.ob(f"{c}.reply.all", {"WasmMsg::Instantiate", "MsgSetBeforeSendHook"} <= seen, "the tracker is not instantiated and hooked", v.where())
    sup = F(ok(call("supply", XASTRO)), "amount")
    for q, want in (("TotalShares", sup), ("TotalDeposit", F(ok(call("balance", SELF, ASTRO)), "amount"))):
        v = ctx.view(c, "query", q)
        for f, val, _ in v.oks:
            r.ob(f"{c}.query.{q}", js(val) is want, "the query answers something else than the bank's figure", v.where())
    for q, now, names in (("BalanceAt", F(ok(call("balance", msg("address"), XASTRO)), "amount"), ("address", "timestamp")), ("TotalSupplyAt", sup, ("timestamp",))):
        v = ctx.view(c, "query", q)
        ts = msg("timestamp")
        for f, val, _ in v.oks:
            a, b = plus(f, isok(ts)), plus(f, neg(isok(ts)))
            r.ob(f"{c}.query.{q}.now", b is not None and values(b, js(val)) == [now], "without a time the current figure is not returned", v.where())
            xs = values(a, js(val)) if a is not None else []
            good_ = len(xs) == 1 and xs[0].op == "ok" and xs[0].a[0].op == "call" and xs[0].a[0].a[0] == "query" and xs[0].a[0].a[1] is F(TD, "tracker_addr")
            if good_:
                qm = xs[0].a[0].a[2]
                good_ = qm.op == "st" and qm.a[1] == q and all(F(qm, k) is msg(k) for k in names)
            r.ob(f"{c}.query.{q}.past", good_, "a historical query is not forwarded unchanged to the tracker", v.where())


@prop("T01", 22, "tracker sudo hook: only transfers of the tracked denom are recorded, never a transfer to oneself; sender snapshot = bank balance - amount, receiver snapshot = bank balance + amount (module account excluded), supply snapshot on every recorded transfer, all at the same unit (seconds or height) the queries default to; the before-send notification cannot fail or write")
def t01(ctx, r):
    c = "astroport_tokenfactory_tracker"
    K = ld("c")
    d, mod, sec = F(K, "d"), F(K, "m"), F(K, "t")
    v = ctx.view(c, "sudo", "BlockBeforeSend")
    frm, to, amt = msg("from"), msg("to"), msg("amount", "amount")

    def at(f, h, n):
        a, b = plus(f, sec), plus(f, neg(sec))
        r.ob(f"{n}.unit", (a is None or values(a, h) == [NOW]) and (b is None or values(b, h) == [HEIGHT]), "the snapshot is not taken at the tracker's unit", v.where())

    def bal(x):
        return F(ok(call("balance", x, d)), "amount")

    seen = set()
    for e, f in v.effects():
        ns = nsof(e["item"])
        n = f"{c}.{ns}"
        r.ob(f"{n}.denom", holds(f, is_eq(msg("amount", "denom"), d)), "transfers of another denom are recorded", v.where(e))
        at(f, e["height"], n)
        if ns == "b":
            who = strip(e["key"])
            r.ob(f"{n}.self", holds(f, neqs(frm, to)), "balances are recorded for a transfer to oneself", v.where(e))
            if who is frm:
                seen.add("from")
                r.ob(f"{c}.from", e["val"] is sub(bal(frm), amt), "the sender's snapshot is not its balance less the amount", v.where(e))
                r.ob(f"{c}.from.module", holds(f, neqs(frm, mod)), "the module account is snapshotted", v.where(e))
            elif who is to:
                seen.add("to")
                r.ob(f"{c}.to", e["val"] is add(bal(to), amt), "the receiver's snapshot is not its balance plus the amount", v.where(e))
                r.ob(f"{c}.to.module", holds(f, neqs(to, mod)), "the module account is snapshotted", v.where(e))
            else:
                r.ob(f"{c}.who", False, "another account is snapshotted", v.where(e))
        elif ns == "t":
            seen.add("supply")
            r.ob(f"{c}.supply", e["val"] is F(ok(call("supply", d)), "amount"), "the supply snapshot is not the bank's supply", v.where(e))
        else:
            r.ob(f"{c}.ns.{ns}", False, "other state is written by the hook", v.where(e))
    r.ob(f"{c}.all", seen == {"from", "to", "supply"}, "sender, receiver and supply are not all recorded", v.where())
    # each is recorded on every path on which it has to be
    for e, f in v.effects():
        ns = nsof(e["item"])
        for g, _, _ in v.oks:
            h = plus(g, *([neg(eq(frm, to))] if ns == "b" else []), *([neg(eq(frm, mod))] if strip(e["key"]) is frm and ns == "b" else []), *([neg(eq(to, mod))] if strip(e["key"]) is to and ns == "b" else []))
            if h is None:
                continue
            r.ob(f"{c}.{ns}.{show(e['key'],2)}.always", without(h, [e["tok"]]) is None, "a transfer can go unrecorded", v.where(e))
    for f, _, _ in v.oks:
        r.ob(f"{c}.denom-only", holds(f, is_eq(msg("amount", "denom"), d)), "the hook accepts another denom", v.where())
    r.ob(f"{c}.silent", not v.msgs(), "the hook sends messages", v.where())
    v = ctx.view(c, "sudo", "TrackBeforeSend")
    r.ob(f"{c}.track", v.oks and not v.effects() and not v.msgs() and all(not [x for x in f if x.op != "did"] for f, _, _ in v.oks), "the notification can fail or write", v.where())
    for q, item in (("BalanceAt", "b"), ("TotalSupplyAt", "t")):
        v = ctx.view(c, "query", q)
        for f, val, _ in v.oks:
            for label, assume, unit in (("given", [isok(msg("unit"))], ok(msg("unit"))), ("seconds", [neg(isok(msg("unit"))), sec], NOW), ("height", [neg(isok(msg("unit"))), neg(sec)], HEIGHT)):
                fs = plus(f, *assume)
                if not r.ob(f"{c}.{q}.{label}.ok", fs is not None, "the query fails", v.where()):
                    continue
                for h, (x,) in cases(fs, js(val)):
                    if x is INT(0):
                        # nothing recorded
                        good_ = True
                    elif x.op == "ok" and x.a[0].op == "may":
                        # current value: only when the asked unit is the present one
                        now = plus(h, sec)
                        good_ = nsof(x.a[0].a[0]) == item and (label != "given" or holds(h, either(is_eq(unit, NOW), is_eq(unit, HEIGHT))))
                    else:
                        y = x
                        while y.op == "ok":
                            y = y.a[0]
                        good_ = y.op == "call" and y.a[0] == "at_height" and nsof(y.a[1]) == item and values(h, y.a[-1]) == [unit]
                    r.ob(f"{c}.{q}.{label}.value", good_, "a historical query reads another snapshot than the requested one", v.where())
    # settings are fixed once instantiated, except for the unit chosen in the 1.0.0 migration
    v = ctx.view(c, "migrate")
    for e, f in v.effects("c"):
        r.ob(f"{c}.migrate", keeps(e["val"], "d", K) and keeps(e["val"], "m", K) and F(e["val"], "t") is msg("track_over_seconds"), "migration changes the tracked denom", v.where(e))
    v = ctx.view(c, "instantiate")
    for e, f in v.effects("c"):
        r.ob(f"{c}.init", F(e["val"], "d") is msg("tracked_denom") and strip(F(e["val"], "m")) is msg("tokenfactory_module_address") and F(e["val"], "t") is msg("track_over_seconds"), "the tracker is set up with other settings than given", v.where(e))
        r.ob(f"{c}.init.valid", holds(f, lit(isok(call("addr_validate", msg("tokenfactory_module_address"))))), "the module address is not validated", v.where(e))
