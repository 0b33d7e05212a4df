"""S03 xASTRO ledger, V01 vesting claims, V02 vesting registrations."""
from check import prop
from rat import req
from rules import *

XT = "astroport_xastro_token"
TI = ld("token_info")


def deltas(v, f, ns):
    """what a call adds to each entry of a balance map, on the paths f: {key: amount term} (None: not an addition to the stored entry)"""
    out = {}
    for e, fs in v.effects(ns):
        if plus(f, e["tok"]) is None:
            continue
        if e["kind"] != "write":
            out[e["key"]] = None
            continue
        m = mk("may", e["item"], e["key"])
        ds = set()
        for assume, base in ((isok(m), ok(m)), (neg(isok(m)), INT(0))):
            h = plus(fs, assume)
            if h is None:
                continue
            for x in values(h, e["val"]):
                ds.add(lin_sub(x, base))
        d = ds.pop() if len(ds) == 1 else None
        if e["key"] in out:
            d = None
        out[e["key"]] = d
    return out


@prop("S03", 60, "xASTRO ledger: on every path the stored balances change by exactly the amounts the action moves (read-modify-write of the right accounts), the recorded supply changes by the same amount, every change is snapshotted at the current height, spending for others needs and consumes an unexpired allowance, and historical queries read the requested height")
def s03(ctx, r):
    amt = msg("amount")
    own, rcp, con = (ok(call("addr_validate", msg(x))) for x in ("owner", "recipient", "contract"))
    # action -> (debited, credited, supply change, spends an allowance)
    SPEC = {
        "Transfer": (SENDER, rcp, 0, False),
        "Send": (SENDER, con, 0, False),
        "TransferFrom": (own, rcp, 0, True),
        "SendFrom": (own, con, 0, True),
        "Burn": (SENDER, None, -1, False),
        "BurnFrom": (own, None, -1, True),
        "Mint": (None, rcp, 1, False),
    }
    for v in list(ctx.views(XT, "execute")) + [w for e in ("migrate", "reply", "sudo") if ctx.has(XT, e) for w in ctx.views(XT, e)]:
        n = f"{v.variant or v.entry}"
        frm, to, sup, spend = SPEC.get(v.variant, (None, None, 0, False))
        if v.variant in SPEC:
            r.ob(f"{n}.possible", len(v.oks) > 0, "the action always fails", v.where())
        for e, f in v.effects():
            ns = nsof(e["item"])
            if ns == "balance":
                r.ob(f"{n}.height", e.get("height") is HEIGHT and e["kind"] == "write", "a balance change is not snapshotted at the current height", v.where(e))
                r.ob(f"{n}.fresh", not e.get("stale"), "the balance was read before another account's change and overwrites it when both are the same account", v.where(e))
            elif ns == "total_supply_history":
                r.ob(f"{n}.supply.height", e["key"] is HEIGHT, "the supply history is written at another height", v.where(e))
        for f, val, _ in v.oks:
            ds = deltas(v, f, "balance")
            # every balance change of the specification happens on every path, and no other
            want = {}
            if frm is not None:
                want[frm] = lin_sub(INT(0), amt)
            if to is not None:
                want[to] = amt
            r.ob(f"{n}.accounts", set(ds) == set(want), "another set of accounts changes than the action names", v.where())
            for k in want:
                r.ob(f"{n}.delta.{'debit' if k is frm else 'credit'}", ds.get(k) is want[k], "an account changes by something else than the amount", v.where())
            for e, _ in v.effects("balance"):
                r.ob(f"{n}.always", without(f, [e["tok"]]) is None, "an account's change can be skipped", v.where(e))
            tis = [(e, fs) for e, fs in v.effects("token_info")]
            hist = [(e, fs) for e, fs in v.effects("total_supply_history")]
            newsup = add(F(TI, "total_supply"), amt) if sup > 0 else lin_sub(F(TI, "total_supply"), amt)
            r.ob(f"{n}.supply.writes", len({e["id"] for e, _ in tis}) == len({e["id"] for e, _ in hist}) == (1 if sup else 0), "the supply is not recorded exactly when it changes", v.where())
            for e, fs in tis:
                r.ob(f"{n}.supply.value", values(fs, F(e["val"], "total_supply")) == [newsup], "the supply changes by something else than the amount", v.where(e))
                r.ob(f"{n}.supply.rest", all(keeps(e["val"], k, TI) for k in ("name", "symbol", "decimals", "mint")), "the token's data change with its supply", v.where(e))
                r.ob(f"{n}.supply.always", without(f, [e["tok"]]) is None, "the supply change can be skipped", v.where(e))
                if sup > 0:
                    cap = F(ok(F(TI, "mint")), "cap")
                    h = plus(fs, isok(cap))
                    r.ob(f"{n}.cap", h is None or hle(h, newsup, ok(cap)), "minting can exceed the cap", v.where(e))
            for e, fs in hist:
                r.ob(f"{n}.hist.value", values(fs, e["val"]) == [newsup], "the supply history records another figure", v.where(e))
                r.ob(f"{n}.hist.always", without(f, [e["tok"]]) is None, "the supply history can be skipped", v.where(e))
            if spend:
                for ns, key in (("allowance", mk("st", "tuple", None, (("0", own), ("1", SENDER)))), ("allowance_spender", mk("st", "tuple", None, (("0", SENDER), ("1", own))))):
                    es = [(e, fs) for e, fs in v.effects(ns)]
                    r.ob(f"{n}.{ns}.spent", len(es) > 0 and without(f, [e["tok"] for e, _ in es]) is None, "spending for another account does not use the allowance", v.where())
                    for e, fs in es:
                        k = e["key"]
                        old = ld(ns, k) if e["kind"] != "clear" else None
                        r.ob(f"{n}.{ns}.key", F(k, "0") is F(key, "0") and F(k, "1") is F(key, "1"), "another account's allowance is used", v.where(e))
                        a = F(old, "allowance")
                        r.ob(f"{n}.{ns}.enough", hle(fs, amt, a), "more than the allowance is spent", v.where(e))
                        if e["kind"] == "write":
                            r.ob(f"{n}.{ns}.less", F(e["val"], "allowance") is lin_sub(a, amt) and keeps(e["val"], "expires", old), "the allowance is not reduced by the amount", v.where(e))
                        ex = F(old, "expires")
                        for var, bound in (("AtHeight", HEIGHT), ("AtTime", TIME)):
                            h = plus(fs, is_variant(ex, var))
                            r.ob(f"{n}.{ns}.expiry.{var}", h is None or hle(h, bound, pay(ex, var, "0"), strict=True), "an expired allowance is spent", v.where(e))
            elif v.variant not in ("IncreaseAllowance", "DecreaseAllowance"):
                r.ob(f"{n}.noallow", not v.effects("allowance") and not v.effects("allowance_spender"), "allowances change without being spent", v.where())
            else:
                for ns in ("allowance", "allowance_spender"):
                    for e, fs in v.effects(ns):
                        a, b = F(e["key"], "0"), F(e["key"], "1")
                        if ns == "allowance_spender":
                            a, b = b, a
                        r.ob(f"{n}.{ns}.own", a is SENDER and strip(b) is msg("spender"), "someone else's allowance changes", v.where(e))
                        r.ob(f"{n}.{ns}.self", holds(fs, neqs(SENDER, b)), "an account can be its own spender", v.where(e))
        if v.variant in ("Send", "SendFrom"):
            for fs, ms in outcomes(v):
                if not r.ob(f"{n}.one", ms is not None and len(ms) == 1, "a send does not notify the contract exactly once", v.where()):
                    continue
                m = ms[0]
                x = m.exec()
                if not r.ob(f"{n}.exec", x is not None, "a send does not call the contract", v.where()):
                    continue
                b = x[1]
                if b.op == "st" and b.a[1] == "Receive":
                    b = F(b, "0")
                r.ob(f"{n}.notify.to", x[0] is msg("contract"), "another contract is notified", v.where())
                r.ob(f"{n}.notify.msg", F(b, "sender") is SENDER and F(b, "amount") is amt and F(b, "msg") is msg("msg"), "the notification misstates the sender, amount or message", v.where())
        else:
            r.ob(f"{n}.silent", not v.msgs(), "messages are sent", v.where())
        if v.variant in ("Transfer", "Send", "Burn", "Mint"):
            for f, _, _ in v.oks:
                r.ob(f"{n}.nonzero", holds(f, neqs(amt, INT(0))) or hle(f, INT(1), amt), "an empty transfer succeeds", v.where())
    # creation: every listed account is credited, and the supply is their sum
    v = ctx.view(XT, "instantiate")
    es = v.effects("balance")
    r.ob("init.writes", len(es) > 0, "initial balances are not stored", v.where())
    lst = msg("initial_balances")
    for f, _, _ in v.oks:
        for k, d in deltas(v, f, "balance").items():
            r.ob("init.credit", strip(k) is F(elem(lst), "address") and is_validated(k) and d is F(elem(lst), "amount"), "an account listed twice is not credited twice although both amounts count towards the supply", v.where())
    for e, f in es:
        r.ob("init.height", e.get("height") is HEIGHT, "initial balances are not snapshotted", v.where(e))
        r.ob("init.every-block", all(nsof(x["item"]) != "balance" or x["item"].a[-1].op == "st" and x["item"].a[-1].a[1] == "EveryBlock" for x, _ in es), "balances are not snapshotted at every height", v.where(e))
    total = mk("sum", F(elem(lst), "amount"))
    for e, f in v.effects("token_info"):
        r.ob("init.supply", F(e["val"], "total_supply") is total, "the supply differs from the initial balances", v.where(e))
        cap = F(ok(msg("mint")), "cap")
        h = plus(f, isok(msg("mint")), isok(cap))
        r.ob("init.cap", h is None or hle(h, total, ok(cap)), "the initial supply exceeds the cap", v.where(e))
        r.ob("init.minter", all(x.op == "bad" or is_validated(F(ok(x), "minter")) for x in values(f, F(e["val"], "mint"))), "the minter is not validated", v.where(e))
    for e, f in v.effects("total_supply_history"):
        r.ob("init.hist", e["key"] is HEIGHT and e["val"] is total, "the initial supply is not recorded", v.where(e))
    for f, _, _ in v.oks:
        h = plus(f, neg(eq(total, INT(0))))
        r.ob("init.hist.always", h is None or without(h, [e["tok"] for e, _ in v.effects("total_supply_history")]) is None, "the initial supply can go unrecorded", v.where())
    # queries
    who = ok(call("addr_validate", msg("address")))
    for q in ("Balance", "BalanceAt"):
        v = ctx.view(XT, "query", q)
        for f, val, _ in v.oks:
            x = val.a[0] if val.op == "json" else val
            for h, (y,) in cases(f, F(x, "balance")):
                if y is INT(0):
                    continue
                z = y
                while z.op == "ok":
                    z = z.a[0]
                if q == "Balance":
                    g_ = z.op == "may" and nsof(z.a[0]) == "balance" and z.a[1] is who
                else:
                    g_ = z.op == "call" and z.a[0] == "at_height" and nsof(z.a[1]) == "balance" and z.a[2] is who and z.a[3] is msg("block")
                r.ob(f"query.{q}", g_, "another balance is answered", v.where())
    v = ctx.view(XT, "query", "TotalSupplyAt")
    for f, val, _ in v.oks:
        x = val.a[0] if val.op == "json" else val
        for h, (y,) in cases(f, x):
            if y is INT(0):
                continue
            rng = [z for z in walk(y) if z.op == "call" and z.a[0] == "range"]
            r.ob("query.TotalSupplyAt", len(rng) == 1 and nsof(rng[0].a[1]) == "total_supply_history" and desc_upto(rng[0], msg("block")) and y.op == "fld" and y.a[1] == "1", "the answer is not the last supply recorded up to the block", v.where())


def desc_upto(rng, b):
    """range(None, Some(inclusive b), Descending)"""
    lo, hi, order = rng.a[3], rng.a[4], rng.a[5]
    return lo.op == "bad" and contains(hi, b) and "inclusive" in show(hi, 8).lower() and order.op == "st" and order.a[1] == "Descending"


VT = "astroport_vesting"


def unlocked_ok(r, n, f, total, scheds, v):
    """total is the sum over the schedules of what each has unlocked by now"""
    x = elem(scheds)
    s, en = F(x, "start_point"), F(x, "end_point")
    e = ok(en)
    if not r.ob(f"{n}.sum", total.op == "sum", "the unlocked amount is not summed over the schedules", v.where()):
        return
    E = total.a[0]
    st, sa, et, ea = F(s, "time"), F(s, "amount"), F(e, "time"), F(e, "amount")
    for label, assume, want in (
        ("future", [lt(NOW, st)], INT(0)),
        ("cliff", [le(st, NOW), neg(isok(en))], sa),
        ("linear", [le(st, NOW), isok(en)], None),
    ):
        got, shares = [], False
        for g, y in leaves(E):
            h = refine(g)
            h = plus(h, *assume) if h is not None else None
            if h is not None:
                got.append((h, y))
        r.ob(f"{n}.{label}.some", len(got) > 0, "a schedule is left out", v.where())
        if label == "linear":
            got = [(g, y) for h, y in got for g in (plus(h, lt(NOW, et)), plus(h, le(et, NOW))) if g is not None]
        for h, y in got:
            if label != "linear":
                r.ob(f"{n}.{label}", y is want, "a schedule unlocks another amount than its start amount plus the elapsed share of the rest", v.where())
                continue
            share = linear(h, y, s, e)
            r.ob(f"{n}.{label}", share or y is sa, "a schedule unlocks another amount than its start amount plus the elapsed share of the rest", v.where())
            shares = shares or share
            if not share and y is sa:
                r.ob(f"{n}.linear.zero", notime(h, s, e), "elapsed time unlocks nothing", v.where())
        if label == "linear":
            r.ob(f"{n}.linear.share", shares, "elapsed time unlocks nothing", v.where())


def until(h, s, e):
    """(the time up to which a schedule with an end unlocks where h says on which side of its end now is)"""
    return NOW if holds(h, le_lit(NOW, F(e, "time"))) else F(e, "time")


def linear(h, y, s, e):
    """y is the start amount and the elapsed share of the rest"""
    u = until(h, s, e)
    st, sa, et, ea = F(s, "time"), F(s, "amount"), F(e, "time"), F(e, "amount")
    full = add(sa, div(mul(lin_sub(u, st), lin_sub(ea, sa)), lin_sub(et, st)))
    return req(subst(y, {tmin(NOW, et): u}), full)


def notime(h, s, e):
    """no time has passed since the start of the schedule"""
    zs = {lin_sub(x, F(s, "time")) for x in (tmin(NOW, F(e, "time")), until(h, s, e))}
    return holds(h, lambda l: any(is_eq(z, INT(0))(l) for z in zs) or is_eq(NOW, F(s, "time"))(l) or is_eq(until(h, s, e), F(s, "time"))(l))


def to_or_sender(r, n, fs, to, v, opt="recipient"):
    r.ob(f"{n}.to", opt_or(fs, to, msg(opt), SENDER, validated=True) or opt_or(fs, to, msg(opt), SENDER) and all(is_validated(x) or x is SENDER for x in values(fs, to)), "tokens go to someone else than the validated recipient or the sender", v.where())


@prop("V01", 25, "vesting claims: a claim touches only the sender's entry, pays in the vesting token to the validated recipient or the sender, records exactly the amount paid, and never pays more than the sum over the schedules of the unlocked amounts minus what was released before; nothing else changes released amounts or pays out except the owner's withdrawal; the availability query answers the same figure")
def v01(ctx, r):
    tokn = F(CFG_, "vesting_token")
    for v in list(ctx.views(VT, "execute")) + [w for e in ("instantiate", "migrate", "reply", "sudo") if ctx.has(VT, e) for w in ctx.views(VT, e)]:
        n = v.variant or v.entry
        for e, f in v.effects("vesting_info"):
            r.ob(f"{n}.kind", e["kind"] == "write", "a vesting entry is removed", v.where(e))
            old = ld("vesting_info", e["key"])
            if n == "Claim":
                continue
            for a in (True, False):
                h = plus(f, isok(mk("may", e["item"], e["key"])) if a else neg(isok(mk("may", e["item"], e["key"]))))
                if h is None:
                    continue
                x = values(h, F(e["val"], "released_amount"))
                want = F(old, "released_amount") if a else INT(0)
                r.ob(f"{n}.released", x == [want], "what was already released is forgotten or invented", v.where(e))
        if n == "migrate":
            # the whole balance is exchanged for the converter's new token, for the contract itself
            con = msg("converter_contract")
            new = None
            for e, f in v.effects("config"):
                d = F(e["val"], "vesting_token", "denom")
                r.ob("migrate.config", keeps(e["val"], "owner", CFG_) and d.op == "fld" and d.a[1] == "new_astro_denom" and contains(d, con), "migration sets another vesting token than the converter's", v.where(e))
                r.ob("migrate.old", holds(f, lambda l: l.op == "eq" and tokn in l.a and any(y.op == "fld" and y.a[1] == "old_astro_asset_info" and contains(y, con) for y in l.a)), "the converter does not take the vesting token", v.where(e))
            for p in allpays(v):
                x = p.extra.a[0] if p.extra is not None and p.extra.op == "json" else p.extra
                r.ob("migrate.pay", p.kind in ("funds", "cw20send") and strip(p.to) is con and F(x, "receiver").op == "bad", "the contract's tokens go elsewhere than to the converter for the contract itself", v.where())
                r.ob("migrate.all", all(contains(y, SELF) or y is INT(0) for y in values(p.facts, p.amount)), "not the whole balance is converted", v.where())
            continue
        if n not in ("Claim", "WithdrawFromActiveSchedule"):
            r.ob(f"{n}.silent", not v.msgs(), "tokens leave outside claims and withdrawals", v.where())
    v = ctx.view(VT, "execute", "Claim")
    I = ld("vesting_info", SENDER)
    rel = F(I, "released_amount")
    total = None
    want_amt = msg("amount")
    r.ob("claim.possible", len(v.oks) > 0, "claims always fail", v.where())
    for fs, ms in outcomes(v):
        if not r.ob("claim.fixed", ms is not None and len(ms) <= 1, "a claim sends more than one message", v.where()):
            continue
        ps = [p for m in ms for p in pays(m)]
        r.ob("claim.pay", len(ps) == len(ms), "a claim does something else than pay", v.where())
        a, b = plus(fs, isok(want_amt)), plus(fs, neg(isok(want_amt)))
        for h, given_ in ((a, True), (b, False)):
            if h is None:
                continue
            if not ps:
                continue
            p = ps[0]
            r.ob("claim.asset", p.kind in ("native", "cw20") and p.asset is (pay(tokn, "NativeToken", "denom") if p.kind == "native" else pay(tokn, "Token", "contract_addr")), "a claim pays another token", v.where())
            to_or_sender(r, "claim", h, p.to, v)
            am = values(h, p.amount)
            if not r.ob("claim.amount.single", len(am) == 1, "the paid amount is ambiguous", v.where()):
                continue
            am = am[0]
            if given_:
                r.ob("claim.amount.given", am is ok(want_amt), "another amount than requested is paid", v.where())
                if total is not None:
                    r.ob("claim.amount.bound", hle(h, am, lin_sub(total, rel)), "more than the unlocked rest can be claimed", v.where())
            else:
                total = add(am, rel)
                unlocked_ok(r, "claim.unlocked", h, total, F(I, "schedules"), v)
            es = [(e, f) for e, f in v.effects("vesting_info")]
            r.ob("claim.recorded", without(h, [e["tok"] for e, _ in es]) is None, "a payment can go unrecorded", v.where())
            for e, f in es:
                r.ob("claim.own", e["key"] is SENDER, "another account's entry is used", v.where(e))
                k = plus(f, *h)
                if k is None:
                    continue
                r.ob("claim.record.amount", values(k, F(e["val"], "released_amount")) == [add(rel, am)], "the released amount grows by something else than the payment", v.where(e))
                r.ob("claim.record.rest", keeps(e["val"], "schedules", I), "claiming changes the schedules", v.where(e))
    # paid before: with a requested amount the bound is checked once the total is known
    if total is not None:
        for fs, ms in outcomes(v, isok(want_amt)):
            for m in ms or []:
                for p in pays(m):
                    for h, (am,) in cases(fs, p.amount):
                        r.ob("claim.amount.bound", hle(h, am, lin_sub(total, rel)), "more than the unlocked rest can be claimed", v.where())
    r.ob("claim.total", total is not None, "a claim without amount does not pay", v.where())
    for e, f in v.effects():
        r.ob("claim.frame", nsof(e["item"]) == "vesting_info", "a claim changes other state", v.where(e))
    v = ctx.view(VT, "query", "AvailableAmount")
    k = ok(call("addr_validate", msg("address")))
    J = ld("vesting_info", k)
    for f, val, _ in v.oks:
        x = val.a[0] if val.op == "json" else val
        unlocked_ok(r, "query", f, add(x, F(J, "released_amount")), F(J, "schedules"), v)


CFG_ = ld("config")


@prop("V02", 25, "vesting registrations and withdrawals: a registration is funded by exactly the sum of the schedules' final amounts in the vesting token, keeps all earlier schedules, and accepts only well-formed schedules; a withdrawal takes a positive amount strictly below what is still locked in the single active schedule, lowers that schedule's end by it, restarts it at what is unlocked now, and pays the same amount to the validated recipient or the owner")
def v02(ctx, r):
    tokn = F(CFG_, "vesting_token")
    for name in ("RegisterVestingAccounts", "Receive"):
        v = ctx.view(VT, "execute", name)
        if name == "Receive":
            hook = ok(call("from_json", msg("0", "msg")))
            lst = pay(hook, "RegisterVestingAccounts", "vesting_accounts")
            paid = msg("0", "amount")
        else:
            lst = msg("vesting_accounts")
            paid = ok(call("must_pay", INFO, pay(tokn, "NativeToken", "denom")))
        r.ob(f"{name}.possible", len(v.oks) > 0, "registration always fails", v.where())
        x = elem(lst)
        sc = elem(F(x, "schedules"))
        s, en = F(sc, "start_point"), F(sc, "end_point")
        for f, _, _ in v.oks:
            if name == "Receive":
                r.ob(f"{name}.token", holds(f, lambda l: l.op == "eq" and tokn in l.a and any(y.op == "st" and y.a[1] == "Token" and strip(F(y, "contract_addr")) is SENDER for y in l.a)), "another token funds the schedules", v.where())
                r.ob(f"{name}.owner", holds(f, is_eq(msg("0", "sender"), F(CFG_, "owner"))), "someone else than the owner registers schedules", v.where())
            else:
                r.ob(f"{name}.native", holds(f, lit(is_variant(tokn, "NativeToken"))), "the vesting token is not native", v.where())
            sums = [l for l in alllits(f) if l.op == "eq" and paid in l.a and any(y.op == "sum" for y in l.a)]
            good_ = False
            for l in sums:
                t = next(y for y in l.a if y.op == "sum")
                if t.a[0].op == "sum" and holds(f, lit(l)):
                    inner = t.a[0].a[0]
                    a = [y for g, y in leaves(inner) if plus(refine(g) or EMPTY, isok(en)) is not None]
                    b = [y for g, y in leaves(inner) if plus(refine(g) or EMPTY, neg(isok(en))) is not None]
                    if a == [F(ok(en), "amount")] and b == [F(s, "amount")]:
                        good_ = True
            r.ob(f"{name}.funded", good_, "the schedules' total was not compared with the amount received", v.where())
        es = v.effects("vesting_info")
        r.ob(f"{name}.writes", len(es) > 0, "nothing is registered", v.where())
        for e, f in es:
            k = e["key"]
            r.ob(f"{name}.key", is_validated(k) and strip(k) is F(x, "address"), "schedules are registered for another account", v.where(e))
            r.ob(f"{name}.fresh", not e.get("stale"), "an account listed twice loses what it was given first", v.where(e))
            m = mk("may", e["item"], k)
            for a in (True, False):
                h = plus(f, isok(m) if a else neg(isok(m)))
                if h is None:
                    continue
                for y in values(h, F(e["val"], "schedules")):
                    if a:
                        parts = set()

                        def ext(t):
                            if t.op == "ext":
                                ext(t.a[0])
                                ext(t.a[1])
                            else:
                                parts.add(t)

                        ext(y)
                        r.ob(f"{name}.kept", parts == {F(x, "schedules"), F(ok(m), "schedules")}, "earlier schedules are lost or others added", v.where(e))
                        r.ob(f"{name}.limit", holds(h, lambda l: l.op in ("le", "lt") and contains(l.a[0], mklen(F(ok(m), "schedules"))) and l.a[1].op == "int"), "the number of schedules is not limited", v.where(e))
                    else:
                        r.ob(f"{name}.new", y is F(x, "schedules"), "other schedules than the given ones are stored", v.where(e))
            h = plus(f, isok(en))
            if r.ob(f"{name}.linear", h is not None, "schedules with an end are rejected", v.where(e)):
                r.ob(f"{name}.times", hle(h, F(s, "time"), F(ok(en), "time"), strict=True), "a schedule can end before it starts", v.where(e))
                r.ob(f"{name}.future", hle(h, NOW, F(ok(en), "time"), strict=True), "a schedule can lie in the past", v.where(e))
                r.ob(f"{name}.amounts", hle(h, F(s, "amount"), F(ok(en), "amount"), strict=True), "a schedule's end amount can be below its start amount", v.where(e))
    v = ctx.view(VT, "execute", "WithdrawFromActiveSchedule")
    amt = msg("withdraw_amount")
    acc = ok(call("addr_validate", msg("account")))
    I = ld("vesting_info", acc)
    sc = elem(F(I, "schedules"))
    s, e_ = F(sc, "start_point"), ok(F(sc, "end_point"))
    r.ob("withdraw.possible", len(v.oks) > 0, "withdrawals always fail", v.where())

    def active(t):
        """what t can be while the schedule has not ended"""
        return {y for g, y in leaves(t) if refine(g) is not None and plus(refine(g), lt(NOW, F(e_, "time"))) is not None}

    def unlocked(xs):
        """the alternatives are what is unlocked now (nothing beyond the start while no time has passed); now lies before the end"""
        now = frozenset([lt(NOW, F(e_, "time"))])
        return any(linear(now, x, s, e_) for x in xs) and all(linear(now, x, s, e_) or x is F(s, "amount") for x in xs)

    for f, _, _ in v.oks:
        r.ob("withdraw.nonzero", holds(f, neqs(amt, INT(0))) or hle(f, INT(1), amt), "an empty withdrawal succeeds", v.where())
        r.ob("withdraw.active", hle(f, F(s, "time"), NOW) and hle(f, NOW, F(e_, "time"), strict=True), "an inactive schedule is changed", v.where())
        r.ob("withdraw.single", holds(f, lambda l: l.op == "not" and l.a[0].op == "isok" and l.a[0].a[0].op == "next") or holds(f, lambda l: l.op in ("le", "eq", "lt") and any(y.op == "len" for y in walk(l))), "several schedules can be active", v.where())
        left = False
        for l in alllits(f):
            if l.op == "lt" and l.a[0] is amt:
                ys = active(l.a[1])
                if unlocked([lin_sub(F(e_, "amount"), y) for y in ys]) and holds(f, lit(l)):
                    left = True
        r.ob("withdraw.bound", left, "as much as or more than what is still locked can be withdrawn", v.where())
    es = v.effects()
    r.ob("withdraw.writes", len({e["id"] for e, _ in es}) == 1, "not exactly one entry changes", v.where())
    for e, f in es:
        r.ob("withdraw.entry", nsof(e["item"]) == "vesting_info" and e["key"] is acc and keeps(e["val"], "released_amount", I), "another entry or the released amount changes", v.where(e))
        r.ob("withdraw.always", all(without(g, [e["tok"]]) is None for g, _, _ in v.oks), "the schedule can stay unchanged", v.where(e))
        ups = []

        def collect(t):
            if t.op == "upd" and t.a[1] == ("e",):
                collect(t.a[0])
                for g, y in leaves(t.a[2]):
                    ups.append(y)
                    starts.append((g, F(y, "start_point")))

        def partway(g, sp):
            """a start point of which the same path goes on to set more"""
            return any(g2 <= g and settings(sp) < settings(x) for g2, x in starts)

        def settings(x):
            """which fields are set to what"""
            got = set()
            while x.op == "upd":
                got.add((x.a[1], x.a[2]))
                x = x.a[0]
            return got

        starts = []
        collect(F(e["val"], "schedules"))
        r.ob("withdraw.inplace", len(ups) > 0, "the schedules are not updated in place", v.where(e))
        news = [y for y in ups if y is not sc and not keeps(y, "end_point", sc)]
        r.ob("withdraw.changed", len(news) > 0, "the schedule's end is not lowered", v.where(e))
        for y, (g, sp) in zip(ups, starts):
            if y is sc:
                continue
            if sp is not s and not partway(g, sp):
                r.ob("withdraw.restart", F(sp, "time") is NOW and unlocked(active(F(sp, "amount"))), "the schedule does not restart now at what is unlocked", v.where(e))
            ep = F(y, "end_point")
            if ep is not F(sc, "end_point"):
                r.ob("withdraw.end", F(ok(ep), "amount") is lin_sub(F(e_, "amount"), amt) and F(ok(ep), "time") is F(e_, "time"), "the schedule's end is not lowered by exactly the withdrawn amount", v.where(e))
    for fs, ms in outcomes(v):
        ps = [p for m in ms or [] for p in pays(m)]
        if r.ob("withdraw.pay", ms is not None and len(ps) == len(ms) == 1, "a withdrawal does not pay exactly once", v.where()):
            p = ps[0]
            r.ob("withdraw.asset", p.kind in ("native", "cw20") and p.asset is (pay(tokn, "NativeToken", "denom") if p.kind == "native" else pay(tokn, "Token", "contract_addr")), "a withdrawal pays another token", v.where())
            r.ob("withdraw.amount", p.amount is amt, "another amount than requested is paid", v.where())
            to_or_sender(r, "withdraw", fs, p.to, v)
