"""Migrations: from which versions a contract goes on, and what it makes of what is stored."""
from check import prop
from props_incentives import checked
from props_maker import cut_ok, plusall
from props_pair import *
from rules import *

CI = ld("contract_info")
C0 = ld("config")
FROM = {
    "astroport_factory": {"astroport-factory": {"1.3.1": "old", "1.5.1": "old", "1.6.0": "old", "1.7.0": "tracked", "1.8.0": "", "1.8.1": ""}},
    "astroport_incentives": {"astroport-incentives": {"1.0.0": "", "1.0.1": "", "1.1.0": "", "1.2.0": ""}},
    "astroport_maker": {"astroport-maker": {"1.2.0": "old", "1.4.0": "dev", "1.5.0": "dev", "1.6.0": "dev"}},
    "astroport_native_coin_registry": {"astroport-native-coin-registry": {"1.0.1": ""}},
    "astroport_oracle": {"astroport-oracle": {"1.0.0": "old", "1.0.1": "old", "1.0.2": "old"}},
    "astroport_pair_concentrated": {"astroport-pair-concentrated": {"4.0.0": "", "4.0.1": "", "4.1.0": ""}},
    "astroport_pair_converter": {"astroport-pair": {"1.0.1": "xyk", "1.1.0": "xyk", "1.3.0": "xyk", "1.3.3": "xyk"}},
    "astroport_pair_xyk_sale_tax": {"astroport-pair": {x: "xyk" for x in ("1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1")}},
    "astroport_router": {"astroport-router": {"1.1.2": "", "1.2.0": "", "1.3.0": ""}},
    "astroport_staking": {"astroport-staking": {"2.0.0": "", "2.1.0": ""}},
    "astroport_tokenfactory_tracker": {"astroport-tokenfactory-tracker": {"1.0.0": "old"}},
    "astroport_vesting": {"astroport-vesting": {"1.1.0": "astro", "1.2.0": "astro", "1.3.0": "astro", "1.3.1": "astro"}},
    "astroport_xastro_token": {"astroport-xastro-token": {"1.0.0": "", "1.0.1": "", "1.0.2": ""}},
}


def named(v):
    """the names of contracts and versions a migration asks about"""
    out = set()
    for f, val, end in v.oks:
        for t in [val, *f, *(l for x in end.store.values() for l in [x])]:
            for l in walk_deep(t):
                if l.op == "str":
                    out.add(l)
    return out


@prop("U01", 120, "for every contract and version a migration may come from: whether it goes on, and what is stored and sent")
def migrations(ctx, r):
    for c in sorted(ctx.ents):
        if not ctx.has(c, "migrate"):
            continue
        v0 = ctx.view(c, "migrate")
        table = FROM.get(c, {})
        names = {x.a[0] for x in named(v0)}
        vers = sorted({x for x in names if x.count(".") == 2 and x.replace(".", "").isdigit()} | {x for t in table.values() for x in t})
        cons = sorted({x for x in names if x.startswith("astro")} | set(table))
        for con in [*cons, None]:
            for ver in [*vers, None]:
                if con is None and ver is not None and ver != (vers or [None])[0]:
                    continue
                kind = table.get(con, {}).get(ver)
                al = [((CI, "contract"), STR(con) if con else STR("some-other-contract")), ((CI, "version"), STR(ver) if ver else STR("0.0.0"))]
                if (con is None or ver is None or kind is None):
                    v = ctx.view(c, "migrate", alias=tuple(al))
                    r.ob(f"{c}/{con}/{ver}/refused", not v.oks, "a migration from a version it is not made for is refused", v.where())
                    continue
                rule = RULES.get((c, kind), plainly)
                rule(ctx, r, c, f"{c}/{ver}", al)


def ends_(v, *asm):
    for f, val, end in v.oks:
        h = plusall(f, asm)
        if h is not None:
            yield h, val, end


def common(ctx, r, c, tag, v, end, may_):
    """the new version is stored and nothing else but what is named"""
    want = None
    if ctx.has(c, "instantiate"):
        for _, _, e in ctx.view(c, "instantiate").oks:
            for k, x in e.store.items():
                if nsof(k[0]) == "contract_info":
                    want = x
    got = [x for k, x in end.store.items() if nsof(k[0]) == "contract_info"]
    r.ob(f"{tag}/version", len(got) == 1 and (got[0] is want if want is not None else got[0].op == "good" and F(ok(got[0]), "contract").op == "str"), "the new name and version are stored", v.where())
    extra = {nsof(k[0]) for k in end.store} - {"contract_info"} - set(may_)
    r.ob(f"{tag}/frame", not extra, f"nothing else changes ({', '.join(sorted(extra))})", v.where())


def silent(r, tag, v):
    r.ob(f"{tag}/silent", not v.msgs(), "no message is sent", v.where())


def plainly(ctx, r, c, tag, al):
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ())
    silent(r, tag, v)


# ---------------------------------------------------------------- the factory
PT, OT = "astroport::factory::PairType", "astroport_factory::migration::OldPairType"
OLDPC = "astroport_factory::migration::OldPairConfig"


def trackers(r, tag, v, h, end):
    got = [x for k, x in end.store.items() if nsof(k[0]) == "tracker_config"]
    for g in split(h, isok(msg("tracker_config"))):
        xs = [simp(g, x) for x in got]
        new = [x for x in xs if x.op == "good"]
        if holds(g, lambda l: l is isok(msg("tracker_config"))):
            t = ok(msg("tracker_config"))
            for x in new:
                a = F(ok(x), "token_factory_addr")
                r.ob(f"{tag}/tracker", F(ok(x), "code_id") is F(t, "code_id") and strip(a) is strip(F(t, "token_factory_addr")) and (is_validated(a) or holds(g, lambda l: l is isok(call("addr_validate", F(t, "token_factory_addr"))))), "the tracker's settings are the validated ones given", v.where())
            r.ob(f"{tag}/tracker/stored", len(new) == 1, "the tracker's settings are stored", v.where())
        else:
            r.ob(f"{tag}/tracker/kept", not new or new[0] is may("tracker_config"), "without settings for the tracker nothing is stored", v.where())


def factory_old(ctx, r, c, tag, al):
    key = mk("atom", "key0")
    fields = ("code_id", "total_fee_bps", "maker_fee_bps", "is_disabled", "is_generator_disabled")
    for kind in ("Xyk", "Stable", "Concentrated", "Custom"):
        old = st(OT, kind, (("0", sym("custom")),) if kind == "Custom" else ())
        cfg = st(OLDPC, "", (("pair_type", old), *((x, sym("old_" + x)) for x in fields)))
        new = st(PT, kind, old.a[2]) if kind in ("Xyk", "Stable", "Custom") else st(PT, "Custom", (("0", STR("concentrated")),))
        a = al + [(("range", "pair_configs"), arr(good(tup(key, cfg)))), (("load", "pair_configs"), lambda k: good(cfg) if strip(k) is key else BAD)]
        v = ctx.view(c, "migrate", alias=tuple(a))
        r.ob(f"{tag}/{kind}/possible", len(v.oks) > 0, "the migration goes on", v.where())
        silent(r, f"{tag}/{kind}", v)
        for f, _, end in v.oks:
            common(ctx, r, c, f"{tag}/{kind}", v, end, ("pair_configs", "tracker_config"))
            for h in split(f, eq(key, new)):
                stays = holds(h, is_eq(key, new))
                put, out = [], []
                for k, x in end.store.items():
                    if nsof(k[0]) != "pair_configs":
                        continue
                    x = simp(h, x)
                    if x.op in ("good", "bad"):
                        (put if x.op == "good" else out).append((simp(h, k[1]), x))
                fine = len(put) == 1 and (strip(put[0][0]) is new or (stays and strip(put[0][0]) is key))
                r.ob(f"{tag}/{kind}/key", fine, "the settings are stored under the name of the type", v.where())
                if len(put) == 1:
                    x = ok(put[0][1])
                    t = simp(h, F(x, "pair_type"))
                    r.ob(f"{tag}/{kind}/type", t is new, "the type stays what it was", v.where())
                    r.ob(f"{tag}/{kind}/kept", all(F(x, y) is sym("old_" + y) for y in fields), "fees and switches stay", v.where())
                    r.ob(f"{tag}/{kind}/open", F(x, "permissioned") is FALSE, "anyone can still create pairs", v.where())
                gone = any(strip(k) is key for k, _ in out)
                r.ob(f"{tag}/{kind}/gone", gone != stays, "the old entry goes where the name changes, and only then", v.where())
    v = ctx.view(c, "migrate", alias=tuple(al + [(("range", "pair_configs"), arr())]))
    for f, _, end in v.oks:
        trackers(r, tag, v, f, end)


def factory_tracked(ctx, r, c, tag, al):
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    silent(r, tag, v)
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ("tracker_config",))
        trackers(r, tag, v, f, end)


# ---------------------------------------------------------------- the fee collector
def maker(ctx, r, c, tag, al, old):
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    silent(r, tag, v)
    fields = set(fields_of(ctx.prog, "astroport::maker::Config"))
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ("config", "seize_config") + (("last_collect_ts",) if old else ()))
        got = {nsof(k[0]): x for k, x in end.store.items()}
        s = got.get("seize_config")
        r.ob(f"{tag}/seize", s is not None and s.op == "good" and F(ok(s), "seizable_assets") is arr(), "nothing can be seized at first", v.where())
        if not old:
            x = got.get("config")
            r.ob(f"{tag}/config", x is None or x is may("config") or ok(x) is C0, "the settings stay", v.where())
            continue
        r.ob(f"{tag}/last", got.get("last_collect_ts") is good(NOW), "the cooldown starts now", v.where())
        if not r.ob(f"{tag}/stored", got.get("config") is not None, "the settings are stored", v.where()):
            continue
        for h0, (x,) in cases(f, got["config"]):
            for h in split(h0, isok(msg("collect_cooldown")), isok(msg("second_receiver_params"))):
                x_ = simp(h, ok(x))
                for y in sorted(fields - {"collect_cooldown", "second_receiver_cfg", "dev_fund_conf"}):
                    r.ob(f"{tag}/kept/{y}", F(x_, y) is F(C0, y), f"{y} stays", v.where())
                r.ob(f"{tag}/dev", F(x_, "dev_fund_conf").op == "bad", "there is no dev fund at first", v.where())
                w = ok(msg("collect_cooldown"))
                limited = holds(h, lambda l: l is neg(isok(msg("collect_cooldown")))) or (hle(h, INT(30), w) and hle(h, w, INT(600)))
                r.ob(f"{tag}/cooldown", simp(h, F(x_, "collect_cooldown")) in (simp(h, msg("collect_cooldown")), msg("collect_cooldown")) and limited, "the cooldown is the one given, within its bounds", v.where())
                z = simp(h, F(x_, "second_receiver_cfg"))
                if holds(h, lambda l: l is isok(msg("second_receiver_params"))):
                    r.ob(f"{tag}/second", cut_ok(h, z, msg("second_receiver_params")), "the second receiver is validated and gets between 1 and 50 per cent", v.where())
                else:
                    r.ob(f"{tag}/second/kept", z is F(C0, "second_receiver_cfg"), "the second receiver stays", v.where())


# ---------------------------------------------------------------- the oracle
def oracle(ctx, r, c, tag, al):
    P = ld("price_last")
    for ka, kb in ("NN", "NT", "TN"):
        x, y = info_of(ka, mk("atom", "o0")), info_of(kb, mk("atom", "o1"))
        v = ctx.view(c, "migrate", alias=tuple(al + [((C0, "asset_infos"), arr(x, y))]))
        t = f"{tag}/{ka}{kb}"
        r.ob(f"{t}/possible", len(v.oks) > 0, "the migration goes on", v.where())
        silent(r, t, v)
        for f, _, end in v.oks:
            common(ctx, r, c, t, v, end, ("price_last", "precisions"))
            got = [z for k, z in end.store.items() if nsof(k[0]) == "price_last"]
            if not r.ob(f"{t}/stored", len(got) == 1 and got[0].op == "good", "the prices are stored", v.where()):
                continue
            z = ok(got[0])
            for name, ps in (("cumulative_prices", ("price0_cumulative_last", "price1_cumulative_last")), ("average_prices", ("price_0_average", "price_1_average"))):
                want = {tup(x, y, F(P, ps[0])), tup(y, x, F(P, ps[1]))}
                r.ob(f"{t}/{name}", F(z, name).op == "arr" and len(F(z, name).a) == 2 and set(F(z, name).a) == want, "each price stays with its direction", v.where())
            r.ob(f"{t}/time", F(z, "block_timestamp_last") is F(P, "block_timestamp_last"), "the time of the last update stays", v.where())
            have = {mk("atom", n) for k, q in end.store.items() if nsof(k[0]) == "precisions" for n in ("o0", "o1") if contains(k[1], mk("atom", n))}
            r.ob(f"{t}/precisions", len(have) == 2, "the precisions of both assets are stored", v.where())


# ---------------------------------------------------------------- pairs which take over others
def taxed(ctx, r, c, tag, al):
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    silent(r, tag, v)
    n = 0
    # the shares of all pairs before version 2 are tokens of their own; without a hook to give them back they cannot be redeemed
    hooks = {x for x, _ in ctx.prog.adts["astroport::pair::Cw20HookMsg"]["variants"]}
    r.ob(f"{tag}/shares", any("Withdraw" in x for x in hooks), "the shares of the pair which is taken over, cw20 tokens up to this version, can be redeemed afterwards", v.where())
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ("config",))
        for k, x in end.store.items():
            if nsof(k[0]) != "config":
                continue
            for h, (t,) in cases(f, ok(x)):
                n += 1
                for y in ("factory_addr", "pair_info", "block_time_last", "price0_cumulative_last", "price1_cumulative_last", "track_asset_balances"):
                    r.ob(f"{tag}/kept/{y}", F(t, y) is F(C0, y), f"{y} stays", v.where())
                tax_case(r, f"{tag}/tax", v, h, t, None)
    r.ob(f"{tag}/stored", n > 0, "the settings are stored", v.where())


def converting(ctx, r, c, tag, al):
    conv = None
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    silent(r, tag, v)
    n = 0
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ("config",))
        for k, x in end.store.items():
            if nsof(k[0]) != "config":
                continue
            for h, (t,) in cases(f, ok(x)):
                n += 1
                for y in ("factory_addr", "pair_info"):
                    r.ob(f"{tag}/kept/{y}", F(t, y) is F(C0, y), f"{y} stays", v.where())
                conv = F(t, "converter_contract")
                r.ob(f"{tag}/converter", is_validated(conv) and strip(conv) is msg("converter_contract"), "the converter is the validated one given", v.where())
                old, new = F(t, "from"), F(t, "to")
                d = F(new, "denom") if new.op == "st" and new.a[1] == "NativeToken" else None
                told = [q for q in (old, d) if q is not None and q.op == "fld" and q.a[0].op == "ok" and qcall(q.a[0]) is not None and strip(qcall(q.a[0])[0]) is msg("converter_contract")]
                r.ob(f"{tag}/told", len(told) == 2 and old.a[1] == "old_astro_asset_info" and d.a[1] == "new_astro_denom", "the tokens are the ones the converter names", v.where())
                infos = F(t, "pair_info", "asset_infos")
                for name, z in (("old", old), ("new", new)):
                    r.ob(f"{tag}/{name}", holds(h, member(infos, z)), "the pair has both tokens", v.where())
                r.ob(f"{tag}/two", holds(h, lambda l: l.op == "eq" and INT(2) in l.a and any(contains(q, infos) and q.op == "len" for q in l.a)), "the pair has two assets", v.where())
    r.ob(f"{tag}/stored", n > 0, "the settings are stored", v.where())


# ---------------------------------------------------------------- the rest
def tracking(ctx, r, c, tag, al):
    v = ctx.view(c, "migrate", alias=tuple(al))
    r.ob(f"{tag}/possible", len(v.oks) > 0, "the migration goes on", v.where())
    silent(r, tag, v)
    for f, _, end in v.oks:
        common(ctx, r, c, tag, v, end, ("c",))
        got = [x for k, x in end.store.items() if nsof(k[0]) == "c"]
        if r.ob(f"{tag}/stored", len(got) == 1, "the settings are stored", v.where()):
            x = ok(got[0])
            r.ob(f"{tag}/kept", F(x, "d") is F(ld("c"), "d") and F(x, "m") is F(ld("c"), "m") and F(x, "t") is msg("track_over_seconds"), "denom and module stay; the unit is the one given", v.where())


def vesting(ctx, r, c, tag, al):
    fields = set(fields_of(ctx.prog, "astroport::vesting::Config") or ()) or {"owner", "vesting_token"}
    for k in "NT":
        token = info_of(k, mk("atom", "oldastro"))
        asm = isok(holding_of(k, mk("atom", "oldastro")).a[0].a[0])
        v = ctx.view(c, "migrate", alias=tuple(al + [((C0, "vesting_token"), token)]), assume=(asm,))
        t = f"{tag}/{k}"
        n = 0
        for f, val, end in v.oks:
            common(ctx, r, c, t, v, end, ("config",))
            for key, x in end.store.items():
                if nsof(key[0]) != "config":
                    continue
                for h, (y,) in cases(f, ok(x)):
                    n += 1
                    new = F(y, "vesting_token")
                    d = F(new, "denom") if new.op == "st" and new.a[1] == "NativeToken" else None
                    q = qcall(d.a[0]) if d is not None and d.op == "fld" and d.a[0].op == "ok" else None
                    fine = q is not None and d.a[1] == "new_astro_denom" and strip(q[0]) is msg("converter_contract")
                    r.ob(f"{t}/token", fine, "the new token is the one the converter names", v.where())
                    r.ob(f"{t}/kept", not changed(y, C0, (fields | {"owner"}) - {"vesting_token"}), "the other settings stay", v.where())
                    if fine:
                        r.ob(f"{t}/same", holds(h, is_eq(F(d.a[0], "old_astro_asset_info"), token)), "the converter takes the old token", v.where())
        r.ob(f"{t}/stored", n > 0, "the settings are stored", v.where())
        have = holding_of(k, mk("atom", "oldastro"))
        for h, ms in outcomes(v, asm):
            ps = [p for m in ms or [] for p in pays(m)]
            fine = ms is not None and len(ms) == 1 and len(ps) == 1 and ps[0].asset is mk("atom", "oldastro") and simp(h, ps[0].amount) is have
            if fine:
                con, x, funds = ms[0].exec()
                if k == "N":
                    fine = strip(con) is msg("converter_contract") and x.op == "st" and x.a[1] == "Convert" and F(x, "receiver").op == "bad"
                else:
                    hook = ps[0].extra.a[0] if ps[0].extra is not None and ps[0].extra.op == "json" else ps[0].extra
                    fine = ps[0].kind == "cw20send" and strip(ps[0].to) is msg("converter_contract") and hook is not None and hook.op == "st" and F(hook, "receiver").op == "bad" and funds is arr()
            r.ob(f"{t}/converted", fine, "the whole balance is converted, for the contract itself", v.where())


def holding_of(kind, atom):
    if kind == "N":
        return F(ok(call("balance", SELF, atom)), "amount")
    return F(ok(call("query", atom, st("cw20::query::Cw20QueryMsg", "Balance", (("address", SELF),)))), "balance")


RULES = {
    ("astroport_factory", "old"): factory_old,
    ("astroport_factory", "tracked"): factory_tracked,
    ("astroport_maker", "old"): lambda *a: maker(*a, True),
    ("astroport_maker", "dev"): lambda *a: maker(*a, False),
    ("astroport_oracle", "old"): oracle,
    ("astroport_pair_xyk_sale_tax", "xyk"): taxed,
    ("astroport_pair_converter", "xyk"): converting,
    ("astroport_tokenfactory_tracker", "old"): tracking,
    ("astroport_vesting", "astro"): vesting,
}
