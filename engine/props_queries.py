"""Queries which state what is stored or held."""
import props_maker
from check import prop
from rules import *
from props_factory import js
from props_pair import CFG, CURVES, NOWS, PCL, STABLE, SUPPLY, TAX, TRANS, TWO, XYK, Ask, calls, cfgtype, dec, info_of, perm, split, sym, tup
from rat import req, teq


def answered(v, *assume):
    """(facts, what is answered)"""
    for f, val, _ in v.oks:
        h = plus(f, *assume) if assume else f
        if h is None:
            continue
        for g, (t,) in cases(h, val):
            t = js(t)
            for k, (x,) in cases(g, t):
                yield k, js(x)


def equals_(h, x, y):
    """x is the stored y, also where it is taken apart and put together again"""
    if x is y or same(x, y):
        return True
    if x.op == "good":
        return x.a[0] is ok(y) or x.a[0] is y or same(x.a[0], ok(y)) or y.op == "good" and equals_(h, x.a[0], y.a[0])
    if x.op == "bad":
        return y.op == "bad" or plus(h, isok(y)) is None
    if x.op == "st" and x.a[2] and y.op in ("fld", "ok"):
        return all(equals_(h, z, F(y, n)) for n, z in x.a[2])
    if x.op == "json" and y.op == "json":
        return equals_(h, x.a[0], y.a[0])
    return False


def eachfield(r, ctx, tag, h, t, ty, src, w, other=()):
    """every field of the answer is the stored one of this name, or what `other` says"""
    other = dict(other)
    names = fields_of(ctx.prog, ty)
    r.ob(f"{tag}/fields", len(names) > 0, "the answer has known fields", w)
    for n in names:
        for g, (x,) in cases(h, F(t, n)):
            p = other.get(n)
            fine = p(g, x) if callable(p) else equals_(g, x, p if p is not None else F(src, n))
            r.ob(f"{tag}/{n}", fine, f"{n} is stated as it is stored", w)


def settings_of(r, ctx, c, var, ty, src, other=()):
    v = ctx.view(c, "query", var)
    tag = f"{c[10:]}/{var}"
    some = False
    for h, t in answered(v):
        some = True
        eachfield(r, ctx, tag, h, t, ty, src, v.where(), other)
    r.ob(f"{tag}/some", some, "the question is answered", v.where())


# contract, question, type of the answer, what is stored
PLAIN = (
    ("factory", "TrackerConfig", "astroport::factory::TrackerConfig", ld("tracker_config")),
    ("fee_granter", "Config", "astroport::fee_granter::Config", ld("config")),
    ("native_coin_registry", "Config", "astroport::native_coin_registry::Config", ld("config")),
    ("maker", "Config", "astroport::maker::ConfigResponse", ld("config")),
    ("maker", "QuerySeizeConfig", "astroport::maker::SeizeConfig", ld("seize_config")),
    ("router", "Config", "astroport::router::ConfigResponse", ld("config")),
    ("staking", "Config", "astroport::staking::Config", ld("config")),
    ("staking", "TrackerConfig", "astroport::staking::TrackerData", ld("tracker_data")),
    ("vesting", "Config", "astroport::vesting::ConfigResponse", ld("config")),
    ("incentives", "Config", "astroport::incentives::Config", ld("config")),
    ("xastro_token", "TokenInfo", "cw20::query::TokenInfoResponse", ld("token_info")),
)
PAIRS = ("pair", "pair_xyk_sale_tax", "pair_stable", "pair_concentrated", "pair_transmuter", "pair_converter", "pair_xastro")
PC = "astroport::pair::ConfigResponse"


def factory_owner(x):
    """the owner the factory answers now"""
    return x.op == "fld" and x.a[1] == "owner" and any(y is F(CFG, "factory_addr") for y in walk_deep(x)) and any(y.op == "call" and y.a[0] in ("rawquery", "query") for y in walk_deep(x))


def current(h, c, y, x):
    """x is the amplification of the moment"""
    base = F(CFG, "pool_state") if c == PCL else CFG
    t0, t1 = (F(base, "initial_time"), F(base, "future_time")) if c == PCL else (F(base, "init_amp_time"), F(base, "next_amp_time"))
    a0, a1 = (F(base, "initial", y), F(base, "future", y)) if c == PCL else (F(base, "init_amp"), F(base, "next_amp"))
    for g in split(h, lt(NOWS, t1)):
        moving = holds(g, lit(lt(NOWS, t1)))
        want = div(add(mul(a0, lin_sub(t1, NOWS)), mul(a1, lin_sub(NOWS, t0))), lin_sub(t1, t0)) if moving else a1
        want = want if c == PCL else div(want, INT(100))
        if not all(req(u, want) for _, u in hoisted(g, simp(g, x), 8)):
            return False
    return True


def parameters(r, ctx, c, tag, h, x, w):
    x = ok(x) if x.op == "good" else x
    if not r.ob(f"{tag}/known", x.op == "st", "the parameters are known", w):
        return
    for n in fields_of(ctx.prog, x.a[0]):
        y = F(x, n)
        if n in ("amp", "gamma"):
            r.ob(f"{tag}/{n}", current(h, c, n, y), f"{n} is the one of the moment", w)
            continue
        src = F(CFG, "pool_state", "price_state", n) if n == "price_scale" else F(CFG, "pool_params", n) if c == PCL and n not in ("track_asset_balances", "fee_share") else F(CFG, n)
        for g, (z,) in cases(h, y):
            r.ob(f"{tag}/{n}", equals_(g, z, src) or req(z, src), f"{n} is stated as it is stored", w)


def pair_settings(r, ctx, n):
    c = "astroport_" + n
    v = ctx.view(c, "query", "Pair")
    r.ob(f"{n}/Pair/some", bool(v.oks), "the question is answered", v.where())
    for h, t in answered(v):
        r.ob(f"{n}/Pair", equals_(h, t, F(CFG, "pair_info")), "the pair is described as it is stored", v.where())
    v = ctx.view(c, "query", "Config")
    tag, w, has = f"{n}/Config", v.where(), set(fields_of(ctx.prog, cfgtype(ctx, c)) or ())
    some = False
    for h, t in answered(v):
        some = True
        for g, (x,) in cases(h, F(t, "owner")):
            o = F(CFG, "owner")
            fine = factory_owner(x) and ("owner" not in has or plus(g, isok(o)) is None)
            r.ob(f"{tag}/owner", fine or "owner" in has and x is ok(o), "the owner is the pair's own, else the factory's", w)
        r.ob(f"{tag}/factory", F(t, "factory_addr") is F(CFG, "factory_addr"), "the factory is stated as it is stored", w)
        for name in sorted({"block_time_last", "tracker_addr"} & has):
            for g, (x,) in cases(h, F(t, name)):
                r.ob(f"{tag}/{name}", equals_(g, x, F(CFG, name)), f"{name} is stated as it is stored", w)
        if c in CURVES:
            for g, (x,) in cases(h, F(t, "params")):
                parameters(r, ctx, c, f"{tag}/params", g, js(x), w)
    r.ob(f"{tag}/some", some, "the question is answered", w)


def listed_(r, ctx, c, var, ns, build, part=None):
    """a list of everything stored, in two entries"""
    ks, xs = [mk("atom", f"key{i}") for i in range(2)], [mk("atom", f"value{i}") for i in range(2)]
    v = ctx.view(c, "query", var, alias=((("range", ns), arr(*[good(tup(k, x)) for k, x in zip(ks, xs)])),))
    n = 0
    for h, t in answered(v):
        n += 1
        t = F(t, part) if part else t
        r.ob(f"{c[10:]}/{var}/all", t is arr(*[build(k, x) for k, x in zip(ks, xs)]), "every stored entry is stated once", v.where())
    r.ob(f"{c[10:]}/{var}/some", n > 0, "the question is answered", v.where())


def entry_(r, ctx, c, var, ns, keyed, part=(), otherwise=None, extra=()):
    """the entry stored for what is named, or what is answered if there is none"""
    v = ctx.view(c, "query", var)
    tag, w, n = f"{c[10:]}/{var}", v.where(), 0
    for h, t in answered(v):
        for name, want in extra:
            r.ob(f"{tag}/{name}", want(F(t, name)), f"{name} is the one asked for", w)
        x = F(t, part[0]) if part and part[0] else t
        for g, (y,) in cases(h, x):
            n += 1
            src = [z for z in walk(y) if z.op == "may" and nsof(z.a[0]) == ns] or [z for l in alllits(g) for z in walk(l) if z.op == "may" and nsof(z.a[0]) == ns]
            if otherwise is not None and otherwise(y):
                r.ob(f"{tag}/none", any(plus(g, isok(z)) is None and keyed(z.a[1]) for z in src), "nothing is stated only if nothing is stored", w)
                continue
            fine = len(set(src)) == 1 and equals_(g, y, F(ok(src[0]), *part[1:]) if part[1:] else ok(src[0]))
            r.ob(f"{tag}/value", fine, "what is stored is stated", w)
            r.ob(f"{tag}/key", all(keyed(z.a[1]) for z in src), "the entry is that of what is named", w)
    r.ob(f"{tag}/some", n > 0, "the question is answered", w)


def names(*fields):
    """the key consists of exactly these fields of the message"""

    def p(k):
        got = {x for x in walk_deep(k) if x.op == "fld" and x.a[0] is sym("msg")}
        return got == {msg(f) for f in fields}
    return p


@prop("Q01", 150, "every question about settings and single entries: each field of the answer against the stored one")
def stated(ctx, r):
    for c, var, ty, src in PLAIN:
        settings_of(r, ctx, "astroport_" + c, var, ty, src)
    for n in PAIRS:
        pair_settings(r, ctx, n)
    c = "astroport_factory"
    v = ctx.view(c, "query", "Config")
    for h, t in answered(v):
        eachfield(r, ctx, "factory/Config", h, t, "astroport::factory::ConfigResponse", ld("config"), v.where(), {"pair_configs": lambda g, x: True})
    listed_(r, ctx, c, "Config", "pair_configs", lambda k, x: x, "pair_configs")
    v = ctx.view("astroport_tokenfactory_tracker", "query", "Config")
    for h, t in answered(v):
        for a, b in (("tracked_denom", "d"), ("token_factory_module", "m"), ("track_over_seconds", "t")):
            r.ob(f"tokenfactory_tracker/Config/{a}", equals_(h, F(t, a), F(ld("c"), b)), f"{a} is stated as it is stored", v.where())
    listed_(r, ctx, "astroport_maker", "Bridges", "bridges", lambda k, x: tup(k, x))
    entry_(r, ctx, "astroport_fee_granter", "GrantFor", "grants", names("grantee_contract"), ("amount",), lambda y: y is INT(0), [("grantee_contract", lambda x: strip(x) is msg("grantee_contract"))])
    entry_(r, ctx, "astroport_native_coin_registry", "NativeToken", "coins_info", names("denom"))
    entry_(r, ctx, "astroport_vesting", "VestingAccount", "vesting_info", names("address"), ("info",), None, [("address", lambda x: strip(x) is msg("address"))])
    entry_(r, ctx, "astroport_xastro_token", "Allowance", "allowance", lambda k: [strip(x) for x in (F(k, "0"), F(k, "1"))] == [msg("owner"), msg("spender")], (), lambda y: y.op == "call" and y.a[0] == "default")
    entry_(r, ctx, "astroport_incentives", "Deposit", "user_info", names("lp_token", "user"), (None, "amount"), lambda y: y is INT(0))
    # pools of the incentives
    v = ctx.view("astroport_incentives", "query", "PoolInfo")
    n = 0
    for h, t in answered(v):
        for name in fields_of(ctx.prog, "astroport::incentives::PoolInfoResponse"):
            for g, (y,) in cases(h, F(t, name)):
                n += 1
                src = sorted({z for z in walk(y) if z.op == "may" and nsof(z.a[0]) == "pools"}, key=lambda z: z.id)
                fine = len(src) == 1 and y is F(ok(src[0]), name) and names("lp_token")(src[0].a[1])
                r.ob(f"incentives/PoolInfo/{name}", fine, f"{name} is stated as it is stored", v.where())
    r.ob("incentives/PoolInfo/some", n > 0, "the question is answered", v.where())
    pools = arr(*[tup(mk("atom", f"lp{i}"), sym(f"points{i}")) for i in range(2)])
    v = ctx.view("astroport_incentives", "query", "ActivePools", alias=((("load", "active_pools"), good(pools)),))
    for h, t in answered(v):
        r.ob("incentives/ActivePools", t is pools, "the pools with emissions are stated with their points", v.where())
    r.ob("incentives/ActivePools/some", bool(v.oks), "the question is answered", v.where())
    # a pair by its assets
    for kinds in ("NT", "NN"):
        infos = [info_of(k, mk("atom", f"asset{i}")) for i, k in enumerate(kinds)]
        n = 0
        for order in (infos, infos[::-1]):
            v = ctx.view("astroport_factory", "query", "Pair", alias=(((sym("msg"), "asset_infos"), arr(*order)),))
            for h, t in answered(v):
                n += 1
                q = qcall(t)
                to = q and strip(q[0])
                src = [z for z in walk(to) if z.op == "may" and nsof(z.a[0]) == "pair_info"] if q else []
                fine = len(src) == 1 and to is strip(ok(src[0])) and q[1].op == "st" and q[1].a[1] == "Pair" and all(contains(src[0].a[1], strip(F(i, "denom" if k == "N" else "contract_addr"))) for i, k in zip(infos, kinds))
                r.ob(f"factory/Pair/{kinds}", fine, "the pair of the named assets is described by itself", v.where())
        r.ob(f"factory/Pair/{kinds}/some", n > 1, "the question is answered", v.where())
    # the minter
    v = ctx.view("astroport_xastro_token", "query", "Minter")
    m = F(ld("token_info"), "mint")
    for h, t in answered(v):
        for g, (x,) in cases(h, t):
            if x.op == "bad":
                r.ob("xastro_token/Minter/none", plus(g, isok(m)) is None, "no minter is stated only if there is none", v.where())
            else:
                x = ok(x) if x.op == "good" else x
                r.ob("xastro_token/Minter/is", all(equals_(g, F(x, n), F(ok(m), n)) for n in ("minter", "cap")), "the minter and the cap are stated as they are stored", v.where())
    # proxies' admins
    L = ld("admin_list")
    v = ctx.view("astroport_whitelist", "query", "AdminList")
    for h, t in answered(v):
        x = F(t, "admins")
        r.ob("whitelist/AdminList/admins", equals_(h, x, F(L, "admins")) or x.op == "mapc" and x.a[0] is F(L, "admins") and [(set(g), y) for g, (y,) in [(g, y if isinstance(y, tuple) else (y,)) for g, y in x.a[1]]] == [(set(), elem(F(L, "admins")))], "all admins are listed", v.where())
        r.ob("whitelist/AdminList/mutable", F(t, "mutable") is F(L, "mutable"), "whether they can change is stated", v.where())
    v = ctx.view("astroport_whitelist", "query", "CanExecute")
    for h, t in answered(v):
        x = F(t, "can_execute")
        r.ob("whitelist/CanExecute", x.op == "any" and x.a[0] is F(L, "admins") and x.a[1] in (eq(elem(F(L, "admins")), msg("sender")), eq(msg("sender"), elem(F(L, "admins")))), "admins and only admins can execute", v.where())
    # balances of the fee collector
    a = [mk("atom", f"fee{i}") for i in range(2)]
    for kinds in ("NT", "TN"):
        infos = [info_of(k, x) for k, x in zip(kinds, a)]
        asm = [props_maker.answered(k, x) for k, x in zip(kinds, a)]
        v = ctx.view("astroport_maker", "query", "Balances", alias=(((sym("msg"), "assets"), arr(*infos)),), assume=tuple(asm))
        n = 0
        for h, t in answered(v, *asm):
            bs = [props_maker.holding(k, x) for k, x in zip(kinds, a)]
            for h2 in split(h, *[eq(INT(0), b) for b in bs]):
                n += 1
                t2 = simp(h2, F(t, "balances"))
                must = [(i, b) for i, b in zip(infos, bs) if not holds(h2, is_eq(b, INT(0)))]
                fine = t2.op == "arr" and all(any(F(y, "info") is i and simp(h2, F(y, "amount")) is b for i, b in zip(infos, bs)) for y in t2.a) and all(sum(F(y, "info") is i for y in t2.a) == 1 for i, _ in must)
                r.ob(f"maker/Balances/{kinds}", fine, "the balance of each named asset is stated, unless it is zero", v.where())
        r.ob(f"maker/Balances/{kinds}/some", n > 0, "the question is answered", v.where())


@prop("Q02", 40, "per pool shape: the pool's reserves, shares, invariant and price of a share are those of the balances and the supply of the moment")
def held(ctx, r):
    for c in CURVES + (TRANS,):
        n = c[10:]
        for kinds in TWO:
            if c == TRANS and "T" in kinds:
                continue
            w = Ask(ctx, c, kinds, "Pool")
            sh, some = w.sh, False
            for h, t in w.answers():
                some = True
                x = F(t, "assets")
                if r.ob(f"{n}/{kinds}/Pool/list", x.op == "arr" and len(x.a) == 2, "the reserves are listed per asset", w.v.where()):
                    for k in range(2):
                        for g, (y, i) in cases(h, F(x.a[k], "amount"), F(x.a[k], "info")):
                            r.ob(f"{n}/{kinds}/Pool/reserve", i is sh.infos[k] and req(w.norm(g, y), sh.reserve(k)), "the reserve stated is what the pool holds", w.v.where())
                r.ob(f"{n}/{kinds}/Pool/shares", all(req(y, SUPPLY) for _, (y,) in cases(h, F(t, "total_share"))), "the shares stated are the supply of LP", w.v.where())
            r.ob(f"{n}/{kinds}/Pool/some", some, "the question is answered", w.v.where())
            if c == STABLE:
                invariant(r, Ask(ctx, c, kinds, "QueryComputeD"), f"{n}/{kinds}/QueryComputeD", False)
            if c == PCL:
                invariant(r, Ask(ctx, c, kinds, "ComputeD"), f"{n}/{kinds}/ComputeD", False)
                invariant(r, Ask(ctx, c, kinds, "LpPrice"), f"{n}/{kinds}/LpPrice", True)


def invariant(r, w, tag, price):
    sh, some, unknown = w.sh, False, False
    R = [sh.reserve(k) for k in range(2)]
    ps = F(CFG, "pool_state", "price_state", "price_scale")
    for h0, t in w.answers():
        for h in split(h0, *([eq(INT(0), SUPPLY)] if price else [])):
            for g, x in hoisted(h, t):
                x = w.norm(g, x)
                if price and holds(g, is_eq(SUPPLY, INT(0))):
                    r.ob(f"{tag}/none", x is INT(0), "without shares there is no price", w.v.where())
                    continue
                ds = calls(x, "compute_d" if sh.c == STABLE else "calc_d")
                xs = calls(x, "get_xcp")
                if not ds or price and not xs:
                    unknown = True
                    r.note(f"{tag}: amount not recognised")
                    continue
                some = True
                if sh.c == STABLE:
                    fine = perm(ds[0].a[2], [dec(k, R[k]) for k in range(2)])
                    want = mul(ok(ds[0]), call("pow", INT(10), F(CFG, "greatest_precision")))
                else:
                    fine = teq(ds[0].a[1], arr(dec(0, R[0]), mul(dec(1, R[1]), ps)))
                    want = ok(ds[0])
                    if price:
                        fine = fine and xs[0].a[1] is ok(ds[0]) and xs[0].a[2] is ps
                        want = div(mul(xs[0], INT(10**6)), SUPPLY)
                r.ob(f"{tag}/args", len(ds) == 1 and fine, "the invariant is that of the reserves held", w.v.where())
                r.ob(f"{tag}/value", req(x, want) or x is ds[0] and want is ok(x), "the invariant is stated as it is", w.v.where())
    r.ob(f"{tag}/some", some or unknown, "the question is answered", w.v.where())


@prop("C04", 40, "the xASTRO pair quotes what staking would give, from the staking contract's ASTRO balance and the supply of xASTRO: amount * supply / balance for ASTRO (less the locked minimum, and more than it, for the first stake), amount * balance / supply for xASTRO of which no more than the supply; backwards the inverse; without spread and commission, for no other asset; pairs without liquidity report no assets and no shares, and no curve or oracle")
def c04(ctx, r):
    c = "astroport_pair_xastro"
    cfg = ld("config")
    held = F(ok(call("balance", F(cfg, "staking"), F(cfg, "astro_denom"))), "amount")
    minted = F(ok(call("supply", F(cfg, "xastro_denom"))), "amount")
    LOCK = INT(1000)
    for variant, side, out in (("Simulation", "offer_asset", "return_amount"), ("ReverseSimulation", "ask_asset", "offer_amount")):
        amt = msg(side, "amount")
        seen = set()
        A, X = F(cfg, "astro_denom"), F(cfg, "xastro_denom")
        native = lambda d: st("astroport::asset::AssetInfo", "NativeToken", (("denom", d),))
        kinds = {
            "astro": (native(A), ()),
            "xastro": (native(X), (neg(eq(A, X)),)),
            "coin": (native(mk("atom", "other")), (neg(eq(A, mk("atom", "other"))), neg(eq(X, mk("atom", "other"))))),
            "token": (st("astroport::asset::AssetInfo", "Token", (("contract_addr", mk("atom", "token")),)), ()),
        }
        for kind, (info, known) in kinds.items():
            v = ctx.view(c, "query", variant, alias=(((msg(side), "info"), info),))
            for f, t in answered(v, *known):
                for h0 in split(f, eq(minted, INT(0)), eq(held, INT(0))):
                    for h, (x,) in cases(h0, F(t, out)):
                        if not r.ob(f"{variant}.asset", kind in ("astro", "xastro"), "an asset outside the pair is quoted", v.where()):
                            continue
                        astro = kind == "astro"
                        first = holds(h, is_eq(minted, INT(0))) or holds(h, is_eq(held, INT(0)))
                        seen.add((astro, first))
                        if variant == "Simulation" and astro and first:
                            r.ob(f"{variant}.first", req(lin_sub(amt, LOCK), x), "the first stake is not quoted less the locked minimum", v.where())
                            r.ob(f"{variant}.first.enough", over(h, amt, LOCK), "a first stake of no more than the locked minimum is quoted", v.where())
                        elif astro and not first:
                            r.ob(f"{variant}.astro", req(div(mul(amt, minted), held), x), "ASTRO is not quoted at shares over deposit", v.where())
                        elif not astro:
                            r.ob(f"{variant}.xastro", req(div(mul(amt, held), minted), x), "xASTRO is not quoted at deposit over shares", v.where())
                            r.ob(f"{variant}.xastro.held", hle(h, amt, minted), "more xASTRO is quoted than exists", v.where())
                        for n in ("spread_amount", "commission_amount"):
                            r.ob(f"{variant}.{n}", F(t, n) is INT(0), "a spread or commission is quoted", v.where())
            r.ob(f"{variant}.{kind}.closed", kind in ("astro", "xastro") or not list(answered(v, *known)), "an asset outside the pair is quoted", v.where())
        r.ob(f"{variant}.astro.some", (True, False) in seen, "ASTRO is never quoted", v.where())
        r.ob(f"{variant}.xastro.some", any(not a for a, _ in seen), "xASTRO is never quoted", v.where())
        if variant == "Simulation":
            r.ob(f"{variant}.first.some", (True, True) in seen, "the first stake is never quoted", v.where())
    for c in ("astroport_pair_xastro", "astroport_pair_converter"):
        infos = F(ld("config"), "pair_info", "asset_infos")
        for variant in ctx.variants(c, "query"):
            v = ctx.view(c, "query", variant)
            if variant in ("Pool", "Share"):
                n = 0
                for f, t in answered(v):
                    n += 1
                    assets = F(t, "assets") if variant == "Pool" else t
                    r.ob(f"{c}.{variant}.assets", covers(assets, infos) and all(same(F(x, "info"), elem(infos)) and F(x, "amount") is INT(0) for _, x in iterinfo(assets)), "a pair which holds nothing reports something else than none of each of its assets", v.where())
                    if variant == "Pool":
                        r.ob(f"{c}.{variant}.shares", F(t, "total_share") is INT(0), "a pair without shares reports some", v.where())
                r.ob(f"{c}.{variant}.some", n > 0, "the query always fails", v.where())
            elif variant not in ("Pair", "Config", "Simulation", "ReverseSimulation"):
                r.ob(f"{c}.{variant}.closed", not v.oks, "a query which the pair cannot answer is answered", v.where())


def over(h, a, k):
    """a > k on every path"""
    rest = lin_sub(a, k)

    def p(l):
        y = None
        if l.op == "not" and l.a[0].op == "eq" and INT(0) in l.a[0].a:
            y = l.a[0].a[1] if l.a[0].a[0] is INT(0) else l.a[0].a[0]
        if l.op == "lt" and l.a[0] is INT(0):
            y = l.a[1]
        return y is not None and y.op == "call" and "saturating_sub" in str(y.a[0]) and y.a[-2:] == (a, k)

    return holds(h, p) or hle(h, k, a, True) or hle(h, k, a) and holds(h, lambda l: l in (neg(eq(a, k)), neg(eq(INT(0), rest)), lt(INT(0), rest)))
