"""A01 privileged actions, A02 ownership transfer, A03 token-hook authenticity."""
from check import prop
from rules import *

OWNER = F(ld("config"), "owner")


def factory_owner(l):
    """sender == owner of the factory the pair was created by, read from the factory's own config"""
    cfg = ld("config")
    for fa in (F(cfg, "factory_addr"), F(cfg, "pair_info", "factory_addr")):
        raw = call("rawquery", fa, STR("config"))
        if l is eq(SENDER, F(ok(call("from_json", ok(ok(raw)))), "owner")):
            return True
    return False


CFG = ld("config")
PAIR_OWNER = F(CFG, "owner")


def own_or_factory(v, r, key, f):
    """config.owner when set, otherwise the factory's owner"""
    a = plus(f, isok(PAIR_OWNER))
    b = plus(f, neg(isok(PAIR_OWNER)))
    r.ob(key, a is None or holds(a, eqs(ok(PAIR_OWNER))), "with a pool owner set, only that owner may act", v.where())
    r.ob(key, b is None or holds(b, factory_owner), "without a pool owner, only the factory owner may act", v.where())


ADMINS = F(ld("admin_list"), "admins")
wl = member(ADMINS, SENDER)
fg = either(eqs(OWNER), member(F(CFG, "admins"), SENDER))
MINTER = F(ok(F(ld("token_info"), "mint")), "minter")
MKT = ok(F(ld("marketing_info"), "marketing"))
OPEN = "open"
OWNED = {"ProposeNewOwner": eqs(OWNER), "DropOwnershipProposal": eqs(OWNER), "ClaimOwnership": eqs(F(ld("ownership_proposal"), "owner"))}
POFO = {"ProposeNewOwner": own_or_factory, "DropOwnershipProposal": own_or_factory, "ClaimOwnership": eqs(F(ld("ownership_proposal"), "owner")), "UpdateConfig": own_or_factory}

TABLE = {
    "astro_token_converter": {"Convert": OPEN, "Receive": OPEN, "TransferForBurning": OPEN, "Burn": OPEN},
    "astro_token_converter_neutron": {"Convert": OPEN, "Receive": OPEN, "TransferForBurning": OPEN},
    "astroport_factory": {
        "UpdateConfig": eqs(OWNER),
        "UpdateTrackerConfig": eqs(OWNER),
        "UpdatePairConfig": eqs(OWNER),
        "CreatePair": OPEN,
        "Deregister": eqs(OWNER),
        **OWNED,
    },
    "astroport_fee_granter": {"Grant": fg, "Revoke": fg, "TransferCoins": fg, "UpdateAdmins": eqs(OWNER), **OWNED},
    "astroport_incentives": {
        "SetupPools": either(eqs(OWNER), eqs(ok(F(CFG, "generator_controller")))),
        "ClaimRewards": OPEN,
        "Receive": OPEN,
        "Deposit": OPEN,
        "Withdraw": OPEN,
        "SetTokensPerSecond": eqs(OWNER),
        "Incentivize": OPEN,
        "IncentivizeMany": OPEN,
        "RemoveRewardFromPool": eqs(OWNER),
        "ClaimOrphanedRewards": eqs(OWNER),
        "UpdateConfig": eqs(OWNER),
        "UpdateBlockedTokenslist": either(eqs(OWNER), eqs(ok(F(CFG, "guardian")))),
        "DeactivatePool": eqs(F(CFG, "factory")),
        "DeactivateBlockedPools": OPEN,
        **OWNED,
    },
    "astroport_maker": {
        "Collect": OPEN,
        "UpdateConfig": eqs(OWNER),
        "UpdateBridges": eqs(OWNER),
        "SwapBridgeAssets": eqs(SELF),
        "DistributeAstro": eqs(SELF),
        "EnableRewards": eqs(OWNER),
        "Seize": OPEN,
        "UpdateSeizeConfig": eqs(OWNER),
        **OWNED,
    },
    "astroport_native_coin_registry": {"Add": eqs(OWNER), "Register": OPEN, "Remove": eqs(OWNER), **OWNED},
    "astroport_oracle": {"Update": OPEN},
    "astroport_pair": {"Receive": OPEN, "ProvideLiquidity": OPEN, "WithdrawLiquidity": OPEN, "Swap": OPEN, "UpdateConfig": factory_owner},
    "astroport_pair_concentrated": {"Receive": OPEN, "ProvideLiquidity": OPEN, "WithdrawLiquidity": OPEN, "Swap": OPEN, **POFO},
    "astroport_pair_converter": {"Receive": OPEN, "Swap": OPEN},
    "astroport_pair_stable": {"Receive": OPEN, "ProvideLiquidity": OPEN, "WithdrawLiquidity": OPEN, "Swap": OPEN, **POFO},
    "astroport_pair_transmuter": {"ProvideLiquidity": OPEN, "WithdrawLiquidity": OPEN, "Swap": OPEN},
    "astroport_pair_xastro": {"Swap": OPEN},
    "astroport_pair_xyk_sale_tax": {
        "Receive": OPEN,
        "ProvideLiquidity": OPEN,
        "WithdrawLiquidity": OPEN,
        "Swap": OPEN,
        "UpdateConfig": either(factory_owner, eqs(F(CFG, "tax_config_admin"))),
    },
    "astroport_router": {"Receive": OPEN, "ExecuteSwapOperations": OPEN, "ExecuteSwapOperation": eqs(SELF)},
    "astroport_staking": {"Enter": OPEN, "EnterWithHook": OPEN, "Leave": OPEN},
    "astroport_vesting": {"Claim": OPEN, "Receive": OPEN, "RegisterVestingAccounts": eqs(OWNER), "WithdrawFromActiveSchedule": eqs(OWNER), **OWNED},
    "astroport_whitelist": {"Execute": wl, "Freeze": wl, "UpdateAdmins": wl},
    "astroport_xastro_token": {
        "Transfer": OPEN,
        "Send": OPEN,
        "IncreaseAllowance": OPEN,
        "DecreaseAllowance": OPEN,
        "TransferFrom": OPEN,
        "SendFrom": OPEN,
        "Burn": eqs(MINTER),
        "BurnFrom": eqs(MINTER),
        "Mint": eqs(MINTER),
        "UpdateMarketing": eqs(MKT),
        "UploadLogo": eqs(MKT),
    },
}


def _desc(t):
    return show(t, 6)


@prop("A01", 100, "for every message variant of every contract: on every successful path the sender was compared equal to the authority the table names (owner, guardian, factory, contract itself, minter, admin list); a variant without table entry must not write state nor emit messages")
def a01(ctx, r):
    for c in sorted(ctx.ents):
        if not ctx.has(c, "execute"):
            continue
        tab = TABLE.get(c, {})
        for v in ctx.views(c, "execute"):
            key = f"{c}.{v.variant}"
            rule = tab.get(v.variant)
            if rule is None:
                r.ob(key, not v.effects() and not v.msgs(), "an endpoint that is not classified changes state or sends messages", v.where())
                continue
            if rule is OPEN:
                r.ob(key, True, "open endpoint")
                continue
            if not v.oks:
                r.ob(key, True, "always fails")
                continue
            for f, _, _ in v.oks:
                if rule is own_or_factory:
                    own_or_factory(v, r, key, f)
                else:
                    r.ob(key, holds(f, rule), "a path succeeds without the sender having been compared with the authority of this action", v.where())
    # finer authority inside otherwise open or shared endpoints
    v = ctx.view("astroport_factory", "execute", "CreatePair")
    perm = F(ld("pair_configs", msg("pair_type")), "permissioned")
    for f, _, _ in v.oks:
        g = plus(f, perm)
        r.ob("astroport_factory.CreatePair.permissioned", g is None or holds(g, eqs(OWNER)), "a permissioned pair type can be created by someone else than the owner", v.where())
    v = ctx.view("astroport_pair_xyk_sale_tax", "execute", "UpdateConfig")
    adm = eqs(F(CFG, "tax_config_admin"))
    for e, f in v.effects("config"):
        for g, val in leaves(e["val"]):
            fs = refine(f | g)
            if fs is None:
                continue
            for n in ("tax_configs", "tax_config_admin"):
                if F(val, n) is not F(CFG, n):
                    r.ob(f"astroport_pair_xyk_sale_tax.UpdateConfig.{n}", holds(fs, adm), "tax parameters change without the tax admin being the sender", v.where(e))
            for n in ("track_asset_balances",):
                if F(val, n) is not F(CFG, n):
                    r.ob(f"astroport_pair_xyk_sale_tax.UpdateConfig.{n}", holds(fs, factory_owner), "pool settings change without the factory owner being the sender", v.where(e))
    # registering vesting schedules through the token hook is the owner's right too
    v = ctx.view("astroport_vesting", "execute", "Receive")
    for e, f in v.effects("vesting_info"):
        r.ob("astroport_vesting.Receive.owner", holds(f, lambda l: l is eq(msg("0", "sender"), OWNER)), "someone else than the owner registers vesting schedules through the token hook", v.where(e))


# ---------------------------------------------------------------- A02
TWO_STEP = ["astroport_factory", "astroport_fee_granter", "astroport_incentives", "astroport_maker", "astroport_native_coin_registry", "astroport_pair_concentrated", "astroport_pair_stable", "astroport_vesting"]
PROPOSAL = "ownership_proposal"
DAYS14 = INT(1209600)


def unopt(t):
    return ok(t) if t.op in ("good", "may") else t


@prop("A02", 60, "ownership proposals are written only by the owner's proposal action (validated new address different from the current owner, lifetime at most 14 days, expiry = now + lifetime), removed by drop and claim; the owner field of the configuration changes only in the claim, by the proposed account, not after expiry, to exactly the proposed address, leaving every other setting as it was")
def a02(ctx, r):
    P = ld(PROPOSAL)
    for c in TWO_STEP:
        for v in list(ctx.views(c, "execute")) + [ctx.view(c, e, x) for e in ("reply", "migrate", "sudo") if ctx.has(c, e) for x in ctx.variants(c, e)]:
            n = f"{c}.{v.variant or v.entry}"
            for e, f in v.effects(PROPOSAL):
                r.ob(f"{n}.proposal", v.variant in ("ProposeNewOwner", "DropOwnershipProposal", "ClaimOwnership"), "the ownership proposal is touched by another action", v.where(e))
            for e, f in v.effects("config", ("write",)):
                if v.variant == "ClaimOwnership":
                    continue
                r.ob(f"{n}.owner-kept", keeps(e["val"], "owner", CFG), "the owner changes outside the claim of a proposal", v.where(e))
            for e, f in v.effects("config", ("remove",)):
                r.ob(f"{n}.owner-kept", False, "the configuration is removed", v.where(e))
        v = ctx.view(c, "execute", "ProposeNewOwner")
        effs = v.effects(PROPOSAL)
        r.ob(f"{c}.propose.writes", len(effs) > 0 and all(e["kind"] == "write" for e, _ in effs) and all(e["tok"] in fdids(f) for f, _, _ in v.oks for e, _ in effs), "proposing does not store the proposal on every successful path", v.where())
        for e, f in effs:
            o, t = F(e["val"], "owner"), F(e["val"], "ttl")
            r.ob(f"{c}.propose.validated", is_validated(o) and strip(o) is msg("owner"), "the proposed owner is not the validated address of the message", v.where(e))
            r.ob(f"{c}.propose.ttl", t is add(NOW, msg("expires_in")), "the expiry is not the current time plus the requested lifetime", v.where(e))
            r.ob(f"{c}.propose.bound", hle(f, msg("expires_in"), DAYS14), "a proposal may live longer than 14 days", v.where(e))

            def differs(l):
                if l.op != "not" or l.a[0].op != "eq":
                    return False
                a = l.a[0].a
                other = a[1] if a[0] is o else a[0] if a[1] is o else None
                return other is not None and (other in (OWNER, ok(OWNER)) or factory_owner(eq(SENDER, other)))

            r.ob(f"{c}.propose.differs", holds(f, differs) or holds(f, lambda l: l is neg(eq(SENDER, o))), "the current owner can be proposed as the new one", v.where(e))
        r.ob(f"{c}.propose.only", {nsof(e["item"]) for e, _ in v.effects()} <= {PROPOSAL} and not v.msgs(), "proposing an owner changes something else", v.where())
        v = ctx.view(c, "execute", "DropOwnershipProposal")
        r.ob(f"{c}.drop", {(nsof(e["item"]), e["kind"]) for e, _ in v.effects()} == {(PROPOSAL, "remove")}, "dropping a proposal does not just remove it", v.where())
        v = ctx.view(c, "execute", "ClaimOwnership")
        effs = v.effects()
        r.ob(f"{c}.claim.effects", {(nsof(e["item"]), e["kind"]) for e, _ in effs} == {(PROPOSAL, "remove"), ("config", "write")}, "a claim does not remove the proposal and write the owner, and nothing else", v.where())
        for f, _, _ in v.oks:
            r.ob(f"{c}.claim.both", all(e["tok"] in fdids(f) for e, _ in effs), "a claim succeeds without both removing the proposal and writing the owner", v.where())
            r.ob(f"{c}.claim.sender", holds(f, eqs(F(P, "owner"))), "someone else than the proposed owner can claim", v.where())
            r.ob(f"{c}.claim.expiry", hle(f, NOW, F(P, "ttl")), "an expired proposal can be claimed", v.where())
        for e, f in v.effects("config"):
            val = e["val"]
            o = F(val, "owner")
            names = fields_of(ctx.prog, adtname(val) or "") or []
            if not names:
                cand = [x for x in set(u.a[1][1] for u in walk(val) if u.op == "upd" and u.a[1][0] == "f")]
                names = cand
            r.ob(f"{c}.claim.value", o in (F(P, "owner"), mk("good", F(P, "owner")), good(F(P, "owner"))), "the new owner is not the proposed address", v.where(e))
            r.ob(f"{c}.claim.frame", all(keeps(val, n, CFG) for n in names if n != "owner"), "a claim changes another setting", v.where(e))
