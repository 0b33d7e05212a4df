"""C01 ASTRO converters, C02 converter pair, C03 xASTRO pair."""
from check import prop
from rules import *

CFG = ld("config")


@prop("C01", 20, "every message of the converters: conversions pay exactly the amount received of the configured old token (native: must_pay of its denom; cw20: hook amount from exactly that token contract) in the configured new denom to the given receiver or the depositor, and the burn paths send the contract's whole old-token balance to the configured burn address / burn it, nowhere else")
def c01(ctx, r):
    old = F(CFG, "old_astro_asset_info")
    for c in ("astro_token_converter", "astro_token_converter_neutron"):
        for v in ctx.views(c, "execute"):
            n = f"{c}.{v.variant}"
            if v.variant == "Burn" and not v.oks:
                continue
            r.ob(f"{n}.stateless", not v.effects(), "the converter changes state", v.where())
            if v.oks:
                r.ob(f"{n}.one", nmsgs(v) == {1}, "not exactly one message is sent", v.where())
            for m in v.msgs():
                if v.variant in ("Convert", "Receive"):
                    ps = pays(m)
                    r.ob(f"{n}.kind", m.kind == "BankMsg::Send" and len(ps) == 1, "conversion does something else than one bank send", v.where())
                    for p in ps:
                        r.ob(f"{n}.denom", p.asset is F(CFG, "new_astro_denom"), "payout is not in the new token", v.where())
                        if v.variant == "Convert":
                            want = ok(call("must_pay", INFO, pay(old, "NativeToken", "denom")))
                            r.ob(f"{n}.amount", p.amount is want, "payout differs from the amount of the old token paid in", v.where())
                            r.ob(f"{n}.to", opt_or(p.facts, p.to, msg("receiver"), SENDER), "payout goes to someone else than the receiver or the sender", v.where())
                        else:
                            r.ob(f"{n}.amount", p.amount is msg("0", "amount"), "payout differs from the hook's amount", v.where())
                            hook = ok(call("from_json", msg("0", "msg")))
                            r.ob(f"{n}.to", opt_or(p.facts, p.to, F(hook, "receiver"), msg("0", "sender")), "payout goes to someone else than the receiver or the depositor", v.where())
                            r.ob(f"{n}.token", holds(p.facts, is_eq(SENDER, pay(old, "Token", "contract_addr"))), "a token other than the old one is converted", v.where())
                        r.ob(f"{n}.type", holds(p.facts, lambda l: l is is_variant(old, "NativeToken" if v.variant == "Convert" else "Token")), "the old token is not of the kind this endpoint converts", v.where())
                elif v.variant == "TransferForBurning":
                    bp = ok(F(CFG, "outpost_burn_params"))
                    den = pay(old, "NativeToken", "denom")
                    bal = F(ok(call("balance", SELF, den)), "amount")
                    if m.kind == "IbcMsg::Transfer":
                        to, ch, amt = m.f("to_address"), m.f("channel_id"), [m.f("amount")]
                    elif m.kind == "NeutronMsg::IbcTransfer":
                        to, ch, amt = m.f("receiver"), m.f("source_channel"), [m.f("token")]
                    else:
                        r.ob(f"{n}.kind", False, "burning does something else than the IBC transfer", v.where())
                        continue
                    r.ob(f"{n}.to", to is F(bp, "terra_burn_addr"), "burned tokens go elsewhere than the configured burn address", v.where())
                    r.ob(f"{n}.channel", ch is F(bp, "old_astro_transfer_channel"), "burned tokens leave through another channel", v.where())
                    r.ob(f"{n}.denom", all(F(a, "denom") is den for a in amt), "something else than the old token is burned", v.where())
                    r.ob(f"{n}.amount", all(F(a, "amount") is bal for a in amt), "not the whole old-token balance is burned", v.where())
                    to_ = msg("timeout")
                    for fs in (plus(m.facts, isok(to_)),):
                        r.ob(f"{n}.timeout", fs is not None and hle(fs, INT(120), ok(to_)) and hle(fs, ok(to_), INT(600)), "a timeout outside two to ten minutes is accepted", v.where())
                else:
                    ps = pays(m)
                    tok_ = pay(old, "Token", "contract_addr")
                    r.ob(f"{n}.burn", len(ps) == 1 and ps[0].kind == "cw20burn" and ps[0].asset is tok_, "burning does something else than burn the old token", v.where())
                    r.ob(f"{n}.amount", len(ps) == 1 and ps[0].amount.op == "fld" and ps[0].amount.a[1] == "balance" and loads(ps[0].amount) == {"config"} and contains(ps[0].amount, SELF), "not the contract's own balance is burned", v.where())
        for e in ("instantiate", "migrate", "sudo", "reply"):
            if ctx.has(c, e):
                for v in ctx.views(c, e):
                    r.ob(f"{c}.{e}.silent", not v.msgs(), "messages are sent outside the conversion endpoints", v.where())
        for v in ctx.views(c, "execute") + ([] if not ctx.has(c, "sudo") else ctx.views(c, "sudo")):
            r.ob(f"{c}.config-fixed", not v.effects("config"), "the conversion settings change after instantiation", v.where())


@prop("C02", 20, "the converter pair accepts only the configured source asset, forwards exactly the amount received to the configured converter with the swap's validated recipient (or the trader) as receiver, keeps no state, quotes 1:1, and is set up only from an Astroport pair holding both assets")
def c02(ctx, r):
    c = "astroport_pair_converter"
    frm = F(CFG, "from")
    for v in ctx.views(c, "execute"):
        n = f"{c}.{v.variant}"
        if not v.oks:
            continue
        r.ob(f"{n}.known", v.variant in ("Swap", "Receive"), "an unsupported action succeeds", v.where())
        r.ob(f"{n}.stateless", not v.effects(), "a swap changes state", v.where())
        r.ob(f"{n}.one", nmsgs(v) == {1}, "not exactly one message is sent", v.where())
        if v.variant == "Swap":
            info, amount, to, user = msg("offer_asset", "info"), msg("offer_asset", "amount"), msg("to"), SENDER
        else:
            hook = ok(call("from_json", msg("0", "msg")))
            info = None
            amount, to, user = msg("0", "amount"), pay(hook, "Swap", "to"), msg("0", "sender")
        for m in v.msgs():
            if v.variant == "Swap":
                r.ob(f"{n}.source", holds(m.facts, is_eq(frm, info)), "an asset other than the source is accepted", v.where())
                den = pay(info, "NativeToken", "denom")
                r.ob(f"{n}.paid", holds(m.facts, is_eq(ok(call("must_pay", INFO, den)), amount)), "the offered amount was not compared with the coins sent", v.where())
            else:
                r.ob(f"{n}.source", holds(m.facts, lambda l: l.op == "eq" and frm in l.a and any(x.op == "st" and x.a[1] == "Token" and strip(F(x, "contract_addr")) is SENDER for x in l.a)), "a token other than the source is accepted", v.where())
            for p in pays(m):
                if p.kind == "funds":
                    same_ = info is not None and holds(p.facts, is_eq(frm, info))  # what is offered is the source
                    r.ob(f"{n}.native", (p.asset is pay(frm, "NativeToken", "denom") or same_ and p.asset is pay(info, "NativeToken", "denom")) and p.amount is amount, "not the offered amount of the source denom is forwarded", v.where())
                    r.ob(f"{n}.native.to", p.to is F(CFG, "converter_contract"), "coins are forwarded elsewhere than the converter", v.where())
                    x = p.extra
                    r.ob(f"{n}.native.msg", x.op == "st" and x.a[1] == "Convert", "the converter is not asked to convert", v.where())
                    rec = F(x, "receiver")
                elif p.kind == "cw20send":
                    named = p.asset is frm and (info is None or plus(p.facts, is_variant(info, "NativeToken")) is None)  # printed as a whole
                    r.ob(f"{n}.cw20", (p.asset is pay(frm, "Token", "contract_addr") or named or p.asset is SENDER and v.variant == "Receive") and p.amount is amount, "not the offered amount of the source token is forwarded", v.where())
                    r.ob(f"{n}.cw20.to", strip(p.to) is F(CFG, "converter_contract"), "tokens are forwarded elsewhere than the converter", v.where())
                    x = p.extra
                    x = x.a[0] if x.op == "json" else x
                    rec = F(x, "receiver")
                else:
                    r.ob(f"{n}.kind", False, "the swap sends something else than the offered asset to the converter", v.where())
                    continue
                r.ob(f"{n}.receiver", opt_or(p.facts, ok(rec), to, user, validated=True), "converted tokens go to someone else than the validated recipient or the trader", v.where())
                r.ob(f"{n}.receiver-set", isok(rec) is TRUE, "the converter is not told whom to pay", v.where())
    v = ctx.view(c, "query", "Simulation")
    for f, val, _ in v.oks:
        x = val.a[0] if val.op == "json" else val
        r.ob(f"{c}.sim", F(x, "return_amount") is msg("offer_asset", "amount") and F(x, "spread_amount") is INT(0) and F(x, "commission_amount") is INT(0), "the quote is not 1:1", v.where())
        r.ob(f"{c}.sim.source", holds(f, is_eq(frm, msg("offer_asset", "info"))), "another asset is quoted", v.where())
    v = ctx.view(c, "query", "ReverseSimulation")
    for f, val, _ in v.oks:
        x = val.a[0] if val.op == "json" else val
        r.ob(f"{c}.rsim", F(x, "offer_amount") is msg("ask_asset", "amount"), "the reverse quote is not 1:1", v.where())
        r.ob(f"{c}.rsim.source", holds(f, neqs(frm, msg("ask_asset", "info"))) and holds(f, member(F(CFG, "pair_info", "asset_infos"), msg("ask_asset", "info"))), "an asset other than the target is quoted", v.where())
    v = ctx.view(c, "migrate")
    ents = v.effects("config")
    r.ob(f"{c}.migrate.writes", len(ents) == 1, "migration does not set up the pair exactly once", v.where())
    for e, f in ents:
        con = F(e["val"], "converter_contract")
        q = F(e["val"], "from")
        infos = F(CFG, "pair_info", "asset_infos")
        r.ob(f"{c}.migrate.converter", is_validated(con) and strip(con) is msg("converter_contract"), "the converter address is not validated", v.where(e))
        r.ob(f"{c}.migrate.members", holds(f, member(infos, q)) and holds(f, member(infos, F(e["val"], "to"))), "source or target asset may not belong to the pair", v.where(e))
        r.ob(f"{c}.migrate.from", q.op == "fld" and q.a[1] == "old_astro_asset_info" and con in set(walk(q)), "the source is not the converter's old token", v.where(e))
        t = F(e["val"], "to")
        r.ob(f"{c}.migrate.to", F(t, "denom").op == "fld" and F(t, "denom").a[1] == "new_astro_denom" and con in set(walk(t)), "the target is not the converter's new token", v.where(e))
        r.ob(f"{c}.migrate.pair", all(same(F(e["val"], n), F(CFG, n)) for n in ("pair_info", "factory_addr")), "migration changes the pair itself", v.where(e))


@prop("C03", 14, "the xASTRO pair turns a swap into exactly one staking Enter (offer ASTRO) or Leave (offer xASTRO) carrying exactly the coins sent, with the validated recipient or the trader as receiver; anything but these two denoms, tokens hooks and liquidity actions fail; set-up requires exactly the staking contract's two denoms")
def c03(ctx, r):
    c = "astroport_pair_xastro"
    den = pay(msg("offer_asset", "info"), "NativeToken", "denom")
    for v in ctx.views(c, "execute"):
        n = f"{c}.{v.variant}"
        if v.variant != "Swap":
            r.ob(f"{n}.closed", not v.oks, "an unsupported action succeeds", v.where())
            continue
        r.ob(f"{n}.stateless", not v.effects(), "a swap changes state", v.where())
        r.ob(f"{n}.one", nmsgs(v) == {1}, "not exactly one message is sent", v.where())
        kinds = set()
        for m in v.msgs():
            r.ob(f"{n}.paid", holds(m.facts, is_eq(ok(call("must_pay", INFO, den)), msg("offer_asset", "amount"))), "the offered amount was not compared with the coins sent", v.where())
            ps = pays(m)
            r.ob(f"{n}.funds", len(ps) == 1 and ps[0].kind == "funds" and ps[0].asset is den and ps[0].amount is msg("offer_asset", "amount"), "not exactly the coins sent are forwarded", v.where())
            for p in ps:
                r.ob(f"{n}.to", p.to is F(CFG, "staking"), "coins go elsewhere than the staking contract", v.where())
                x = p.extra
                k = x.a[1] if x is not None and x.op == "st" else None
                kinds.add(k)
                want = {"Enter": "astro_denom", "Leave": "xastro_denom"}.get(k)
                r.ob(f"{n}.{k}.denom", want is not None and holds(p.facts, is_eq(den, F(CFG, want))), "the wrong denom enters or leaves staking", v.where())
                if want:
                    r.ob(f"{n}.{k}.receiver", isok(F(x, "receiver")) is TRUE and opt_or(p.facts, ok(F(x, "receiver")), msg("to"), SENDER, validated=True), "the proceeds go to someone else than the validated recipient or the trader", v.where())
        r.ob(f"{n}.both", kinds == {"Enter", "Leave"}, "a swap direction is missing", v.where())
    v = ctx.view(c, "instantiate")
    effs = v.effects("config")
    r.ob(f"{c}.init.writes", len(effs) > 0, "the configuration is not stored", v.where())
    infos = msg("asset_infos")
    for e, f in effs:
        for k in ("astro_denom", "xastro_denom"):
            d = F(e["val"], k)
            r.ob(f"{c}.init.{k}", d.op == "fld" and d.a[1] == k and d.a[0].op == "ok" and strip(F(e["val"], "staking")) in set(walk(d)), "the denom is not the staking contract's", v.where(e))
            r.ob(f"{c}.init.{k}.listed", holds(f, memberof(infos, lambda x: x.op == "st" and F(x, "denom") is d)), "the pair is created without the staking denom among its assets", v.where(e))
        r.ob(f"{c}.init.two", holds(f, is_eq(mklen(infos), INT(2))), "the pair does not have exactly two assets", v.where(e))
