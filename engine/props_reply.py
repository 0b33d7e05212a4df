"""Failures of messages: what is undone, what is forgiven, and which answers are taken."""
from check import prop
from props_pair import *
from rules import *

INC_ = "astroport_incentives"
PAYERS = {"Deposit", "Withdraw", "Receive", "ClaimRewards", "RemoveRewardFromPool", "ClaimOrphanedRewards"}
STAKERS = {"Deposit", "Withdraw", "Receive", "ClaimRewards"}


def trigger(h, m):
    """when the message's outcome is reported back: (facts, how, id)"""
    if m.sub is None or m.sub.op != "st":
        yield h, "Never", None
        return
    for g, (on, i) in cases(h, F(m.sub, "reply_on"), F(m.sub, "id")):
        yield g, on.a[1] if on.op == "st" else None, i


def lp_refund(p):
    """the payment gives back the LP tokens which the message names"""
    return any(contains(x, msg("lp_token")) for x in (p.asset,))


@prop("P01", 60, "every message of every entry point: when its outcome is reported back; every reply: which answers it takes")
def answers(ctx, r):
    for c in sorted(ctx.ents):
        asked = {}
        for e in ("instantiate", "execute", "reply", "migrate", "sudo"):
            if not ctx.has(c, e):
                continue
            for v in ctx.views(c, e):
                tag = f"{c}/{v.variant or e}"
                n = 0
                for m in v.msgs():
                    for h, on, i in trigger(m.facts, m):
                        n += 1
                        r.ob(f"{tag}/known", on is not None, "it is known when the outcome of a message is reported", v.where())
                        ps = pays(m)
                        if on in ("Error", "Always"):
                            fine = c == INC_ and v.variant in PAYERS and bool(ps) and all(p.kind in ("native", "cw20") for p in ps)
                            r.ob(f"{tag}/forgiven", fine, "only the failure of a reward payment is forgiven", v.where())
                            r.ob(f"{tag}/refund", not any(lp_refund(p) for p in ps), "the failure to give back staked LP tokens is not forgiven", v.where())
                            r.ob(f"{tag}/gas", F(m.sub, "gas_limit") is F(ld("config"), "token_transfer_gas_limit"), "a payment whose failure is forgiven has the configured gas limit", v.where())
                        elif c == INC_ and v.variant in STAKERS and ps:
                            r.ob(f"{tag}/rewards", all(lp_refund(p) for p in ps), "a reward which cannot be paid does not stand in the way of others", v.where())
                        if on != "Never":
                            r.ob(f"{tag}/id", i is not None and i.op == "int", "the answer is told apart by a number", v.where())
                            if i is not None and i.op == "int":
                                asked.setdefault(i, set()).add((m.kind, on))
        if not ctx.has(c, "reply"):
            r.ob(f"{c}/asked", not asked, "whoever asks for an answer can take it", c)
            continue
        for i, how in asked.items():
            kinds = {k for k, on in how if on in ("Success", "Always")}
            r.ob(f"{c}/{i.a[0]}/one", len(kinds) <= 1, "answers to different messages have different numbers", c)
            for on in {on for _, on in how}:
                bad = on == "Error"
                v = ctx.view(c, "reply", alias=(((sym("msg"), "id"), i),) + ((((sym("msg"), "result"), BAD),) if bad else ()))
                r.ob(f"{c}/{i.a[0]}/{on}/taken", len(v.oks) > 0, "the answer is taken", v.where())
                if bad:
                    r.ob(f"{c}/{i.a[0]}/{on}/quiet", not v.effects() and not v.msgs(), "a forgiven failure changes nothing", v.where())
                    w = ctx.view(c, "reply", alias=(((sym("msg"), "id"), i), ((sym("msg"), "result"), good(sym("response")))))
                    r.ob(f"{c}/{i.a[0]}/{on}/only", not w.oks, "only failures are answered for", w.where())
        used = {i.a[0] for i in asked}
        for i in [x for x in range(6) if x not in used] + [1 << 40]:
            v = ctx.view(c, "reply", alias=(((sym("msg"), "id"), INT(i)),))
            r.ob(f"{c}/{i}/refused", not v.oks, "an answer which was not asked for is refused", v.where())
