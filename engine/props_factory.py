"""G01 pair registry, G02 pair configurations and fees (factory)."""
from check import prop
from rules import *
from props_pair import info_of, sym, acts

FACT = "astroport_factory"
CFG = ld("config")
RID = F(sym("msg"), "id")
TMPKEY = F(ld("tmp_pair_info"), "pair_key")
COMBOS = ("NN", "NT", "TN", "TT", "NNT")


def infos_of(kinds, names="abc"):
    return [info_of(k, sym(f"asset.{n}")) for k, n in zip(kinds, names)]


def atoms(infos):
    return [i.a[2][0][1] for i in infos]


def with_infos(ctx, e, variant, infos):
    return ctx.view(FACT, e, variant, alias=(((sym("msg"), "asset_infos"), arr(*infos)),))


def under(l, ns):
    """keys under which the namespace is read in l"""
    return {x.a[1] for x in walk(l, facts=True) if x.op == "may" and nsof(x.a[0]) == ns}


def created(v):
    """the keys stored for the pair being created"""
    return {F(e["val"], "pair_key") for e, _ in v.effects("tmp_pair_info", ("write",))}


def checked(h, infos):
    return all(holds(h, lit(isok(call("addr_validate", a)))) if k == "T" else holds(h, le_lit(INT(1), mk("len", a))) for (k, a) in (("T" if i.a[1] == "Token" else "N", i.a[2][0][1]) for i in infos))


@prop("G01", 60, "factory: per shape of asset set, creating a pair succeeds only if the set's key is free, all assets are distinct and valid, the configuration of the named type exists, is enabled, and is open or the sender is the owner; it sends exactly one instantiation with the configured code, owner as admin, the given assets, type and parameters and this factory; only the reply to it registers the answered address, under a free key; the key is the same whatever the order of the assets and depends on each; only deregistration removes, exactly the named set, and tells the generator")
def g01(ctx, r):
    made, ids = {}, set()
    for kinds in COMBOS:
        infos = infos_of(kinds)
        keys = []
        for order in (infos, infos[::-1], infos[1:] + infos[:1]):
            v = with_infos(ctx, "execute", "CreatePair", order)
            ks = created(v)
            r.ob(f"create.{kinds}.key", len(ks) == 1, "the set being created is not recorded once", v.where())
            keys += list(ks)
            if order is infos:
                ids |= creation(r, kinds, v, infos, ks)
        r.ob(f"create.{kinds}.order", len(set(keys)) == 1, "the key of a pair depends on the order of its assets", v.where())
        r.ob(f"create.{kinds}.all", all(contains(k, a) for k in keys for a in atoms(infos)), "the key of a pair ignores one of its assets", v.where())
        made[kinds] = keys[0] if keys else None
        for dup in range(1, len(infos)):
            v = with_infos(ctx, "execute", "CreatePair", infos[:dup] + infos[:1] + infos[dup + 1 :])
            r.ob(f"create.{kinds}.double", not v.oks, "a pair of an asset with itself is created", v.where())
    r.ob("create.ids", len(ids) == 1, "creations are answered by different replies", "")
    # the answer to a creation registers the address
    v = ctx.view(FACT, "reply")
    es = v.effects()
    r.ob("reply.some", len(es) > 0, "created pairs are never registered", v.where())
    for e, f in es:
        r.ob("reply.frame", nsof(e["item"]) == "pair_info" and e["kind"] == "write", "the reply changes other state", v.where(e))
        r.ob("reply.key", e["key"] is TMPKEY, "a pair is registered under a key which is not the one being created", v.where(e))
        x = e["val"]
        y = strip(x)
        r.ob("reply.address", is_validated(x) and y.op == "fld" and y.a[1] == "contract_address" and contains(y, F(sym("msg"), "result")), "another address than the answered one is registered", v.where(e))
        r.ob("reply.free", holds(f, lit(neg(isok(may("pair_info", TMPKEY))))), "a registered pair can be overwritten", v.where(e))
    for f, val, end in v.oks:
        r.ob("reply.id", any(holds(f, is_eq(RID, i)) for i in ids), "another reply registers pairs", v.where())
        r.ob("reply.stores", any(nsof(k[0]) == "pair_info" for k in end.store), "a creation is answered without registering the pair", v.where())
    r.ob("reply.quiet", not v.msgs(), "registering a pair sends messages", v.where())
    # deregistration
    for kinds in COMBOS:
        infos = infos_of(kinds)
        v = with_infos(ctx, "execute", "Deregister", infos)
        es = v.effects()
        r.ob(f"deregister.{kinds}.only", len(es) > 0 and all(nsof(e["item"]) == "pair_info" and e["kind"] == "remove" for e, _ in es), "deregistering changes other state", v.where())
        for e, f in es:
            r.ob(f"deregister.{kinds}.key", e["key"] is made[kinds], "another pair is deregistered", v.where(e))
            r.ob(f"deregister.{kinds}.known", holds(f, lit(isok(may("pair_info", e["key"])))), "an unknown pair is deregistered", v.where(e))
        gen = F(CFG, "generator_address")
        for h, ms in outcomes(v):
            for g, want in ((plus(h, isok(gen)), 1), (plus(h, neg(isok(gen))), 0)):
                if g is None or not r.ob(f"deregister.{kinds}.fixed", ms is not None, "the messages are not a fixed list", v.where()):
                    continue
                ok_ = len(ms) == want and all(m.kind == "WasmMsg::Execute" and strip(m.f("contract_addr")) is ok(gen) and m.variant() and m.variant()[1] == "DeactivatePool" for m in ms)
                r.ob(f"deregister.{kinds}.generator", ok_, "the generator is not told to stop rewarding the pool", v.where())
                for m in ms if ok_ else ():
                    lp = strip(F(m.exec()[1], "lp_token"))
                    src = ld("pair_info", made[kinds])
                    r.ob(f"deregister.{kinds}.lp", lp.op == "fld" and lp.a[1] == "liquidity_token" and contains(lp, src), "the generator is told about another pool", v.where())
    # nothing else touches the registry
    for n, v in [(w.variant or w.entry, w) for e in ("instantiate", "execute", "reply", "migrate") if ctx.has(FACT, e) for w in ctx.views(FACT, e)]:
        own = {"CreatePair": ("tmp_pair_info",), "reply": ("pair_info",), "Deregister": ("pair_info",)}.get(n, ())
        for e, _ in v.effects():
            ns = nsof(e["item"])
            r.ob(f"frame.{n}", ns not in ("pair_info", "tmp_pair_info") or ns in own, f"{n} touches the registry of pairs", v.where(e))
    for kinds in COMBOS:
        infos = infos_of(kinds)
        v = with_infos(ctx, "query", "Pair", infos[::-1])
        for f, val, _ in v.oks:
            ks = under(val, "pair_info")
            r.ob(f"query.{kinds}", ks == {made[kinds]}, "the query answers for another pair", v.where())
    v = ctx.view(FACT, "query", "Pairs")
    for f, val, _ in v.oks:
        r.ob("query.list", "pair_info" in loads(val) or any(x.op == "item" and nsof(x) == "pair_info" for x in walk_deep(val)), "the list of pairs does not come from the registry", v.where())


def creation(r, kinds, v, infos, ks):
    tag, ids = f"create.{kinds}", set()
    r.ob(f"{tag}.frame", all(nsof(e["item"]) == "tmp_pair_info" for e, _ in v.effects()), "creating a pair changes other state", v.where())
    outs = outcomes(v)
    r.ob(f"{tag}.some", len(outs) > 0, "no pair can be created", v.where())
    for h, ms in outs:
        for k in ks:
            r.ob(f"{tag}.free", holds(h, lit(neg(isok(may("pair_info", k))))), "a second pair of the same assets can be created", v.where())
        pcs = {x.a[1] for l in h for x in walk(l, facts=True) if x.op == "may" and nsof(x.a[0]) == "pair_configs"}
        if not r.ob(f"{tag}.type", pcs == {msg("pair_type")}, "the configuration used is not that of the named type", v.where()):
            continue
        pc = ld("pair_configs", msg("pair_type"))
        r.ob(f"{tag}.enabled", holds(h, lit(neg(F(pc, "is_disabled")))), "a pair of a disabled type can be created", v.where())
        g = plus(h, F(pc, "permissioned"))
        r.ob(f"{tag}.permission", g is None or holds(g, eqs(F(CFG, "owner"))), "anyone can create a pair of a permissioned type", v.where())
        r.ob(f"{tag}.valid", checked(h, infos), "an invalid asset is accepted", v.where())
        if not r.ob(f"{tag}.one", ms is not None and [m.kind for m in ms] == ["WasmMsg::Instantiate"], "creating a pair does not just instantiate it", v.where()):
            continue
        m = ms[0]
        r.ob(f"{tag}.code", m.f("code_id") is F(pc, "code_id"), "the pair runs other code than configured", v.where())
        ad = m.f("admin")
        r.ob(f"{tag}.admin", strip(ok(ad)) is F(CFG, "owner"), "the pair's admin is not the owner", v.where())
        r.ob(f"{tag}.funds", m.f("funds") is FUNDS, "the coins sent along are not passed on", v.where())
        x = m.f("msg")
        x = x.a[0] if x.op == "json" else x
        r.ob(f"{tag}.assets", F(x, "asset_infos") is arr(*infos), "the pair is created over other assets", v.where())
        r.ob(f"{tag}.kind", F(x, "pair_type") is msg("pair_type"), "the pair is told another type", v.where())
        r.ob(f"{tag}.factory", strip(F(x, "factory_addr")) is SELF, "the pair is told another factory", v.where())
        r.ob(f"{tag}.params", F(x, "init_params") is msg("init_params"), "the parameters given are not passed on", v.where())
        r.ob(f"{tag}.tokencode", F(x, "token_code_id") is F(CFG, "token_code_id"), "another token code is passed on", v.where())
        s = m.sub
        r.ob(f"{tag}.reply", s is not None and F(s, "reply_on").op == "st" and F(s, "reply_on").a[1] in ("Success", "Always"), "the creation is not answered", v.where())
        if s is not None:
            ids.add(F(s, "id"))
    return ids


LIMIT = 10000
OPTS = {"fee_address": True, "generator_address": True, "token_code_id": False, "whitelist_code_id": False, "coin_registry_address": True}
OPTIONAL = ("fee_address", "generator_address")
PCFIELDS = ("code_id", "total_fee_bps", "maker_fee_bps", "is_disabled", "is_generator_disabled")


def value(h, t):
    """what an optional field holds: (given, its value)"""
    return t.a[0] if t.op == "good" else ok(t)


@prop("G02", 40, "factory: every stored pair configuration is filed under its own type with total and maker fees of at most 100%; two configurations of one type are refused at creation; updates change exactly the named settings to the given, validated values and keep the rest; migration keeps every figure; the queries return what is stored: fees of the asked type with the current fee address, and exactly the types which are disabled for pairs or for rewards")
def g02(ctx, r):
    for v in [w for e in ("instantiate", "execute", "reply", "migrate") if ctx.has(FACT, e) for w in ctx.views(FACT, e)]:
        n = v.variant or v.entry
        for e, f in v.effects():
            ns = nsof(e["item"])
            if ns == "pair_configs":
                r.ob(f"{n}.configs", n in ("instantiate", "UpdatePairConfig", "migrate"), "pair configurations change here", v.where(e))
                if n == "migrate":
                    moved(r, v, e, f)
                elif r.ob(f"{n}.writes", e["kind"] == "write", "a pair configuration is removed", v.where(e)):
                    r.ob(f"{n}.filed", e["key"] is F(e["val"], "pair_type"), "a configuration is filed under another type", v.where(e))
                    for x in ("total_fee_bps", "maker_fee_bps"):
                        r.ob(f"{n}.{x}", hle(f, F(e["val"], x), INT(LIMIT)), "a fee above 100% is accepted", v.where(e))
            elif ns == "tracker_config":
                r.ob(f"{n}.tracker", n in ("instantiate", "UpdateTrackerConfig", "migrate"), "the tracker configuration changes here", v.where(e))
                old = may("tracker_config")
                for h, (t,) in cases(f, e["val"]):
                    a = F(t, "token_factory_addr")
                    for g, x in hoisted(h, a):
                        kept = x is F(ok(old), "token_factory_addr") and holds(g, lit(isok(old)))
                        r.ob(f"{n}.tracker.address", kept or is_validated(x) and contains(x, sym("msg")), "an unchecked address is stored for the tracker", v.where(e))
                    c = F(t, "code_id")
                    r.ob(f"{n}.tracker.code", c.op == "fld" and contains(c, sym("msg")) or n == "migrate" and keeps(t, "code_id", ok(old)), "another code is stored for the tracker", v.where(e))
            elif ns == "config":
                r.ob(f"{n}.config", n in ("instantiate", "UpdateConfig", "ClaimOwnership"), "the configuration changes here", v.where(e))
    # the configuration
    v = ctx.view(FACT, "execute", "UpdateConfig")
    es = v.effects("config")
    r.ob("update.some", len(es) > 0 and len(es) == len(v.effects()), "an update stores nothing, or something else", v.where())
    for e, f in es:
        r.ob("update.owner", keeps(e["val"], "owner", CFG), "an update of settings changes the owner", v.where(e))
        for x, checked_ in OPTS.items():
            given, kept = plus(f, isok(msg(x))), plus(f, neg(isok(msg(x))))
            for h, (t,) in cases(given, F(e["val"], x)) if given is not None else ():
                y = value(h, t) if x in OPTIONAL else t
                r.ob(f"update.{x}", strip(y) is strip(ok(msg(x))) and (is_validated(y) or not checked_), f"{x} is not set to the given value", v.where(e))
            for h, (t,) in cases(kept, F(e["val"], x)) if kept is not None else ():
                r.ob(f"update.{x}.kept", t is F(CFG, x), f"{x} changes without being named", v.where(e))
    v = ctx.view(FACT, "instantiate")
    for e, f in v.effects("config"):
        for x in ("owner", "coin_registry_address"):
            r.ob(f"init.{x}", is_validated(F(e["val"], x)) and strip(F(e["val"], x)) is msg(x), f"{x} is not the validated one given", v.where(e))
        for x in ("token_code_id", "whitelist_code_id"):
            r.ob(f"init.{x}", F(e["val"], x) is msg(x), f"{x} is not the one given", v.where(e))
        for x in OPTIONAL:
            for g, want in ((plus(f, isok(msg(x))), True), (plus(f, neg(isok(msg(x)))), False)):
                for h, (t,) in cases(g, F(e["val"], x)) if g is not None else ():
                    y = value(h, t)
                    r.ob(f"init.{x}", is_validated(y) and strip(y) is strip(ok(msg(x))) if want else t.op == "bad" or isok(t) is FALSE, f"{x} is not the validated one given", v.where(e))
    pcs = [mk("sym", f"pc{k}") for k in "ab"]
    ty = ctx.prog.adts
    name = next(n for n in ty if n.endswith("factory::PairConfig") and not n.startswith("astroport_factory"))
    fields = fields_of(ctx.prog, name)

    def config(k, t):
        return st(name, "", tuple((x, t if x == "pair_type" else sym(f"{k}.{x}")) for x in fields))

    for twice in (True, False):
        cs = [config("a", sym("type.a")), config("b", sym("type.a") if twice else sym("type.b"))]
        v = ctx.view(FACT, "instantiate", alias=(((sym("msg"), "pair_configs"), arr(*cs)),))
        if twice:
            r.ob("init.twice", not v.oks, "two configurations of one type are accepted", v.where())
        else:
            r.ob("init.both", bool(v.oks) and all({k[1] for k in end.store if nsof(k[0]) == "pair_configs"} == {sym("type.a"), sym("type.b")} for _, _, end in v.oks), "a configuration given is not stored", v.where())
    # queries
    v = ctx.view(FACT, "query", "FeeInfo")
    pc = ld("pair_configs", msg("pair_type"))
    for f, val, _ in v.oks:
        for h, (t,) in cases(f, js(val)):
            r.ob("fees.rates", all(F(t, x) is F(pc, x) for x in ("total_fee_bps", "maker_fee_bps")), "the fees stated are not those of the type", v.where())
            r.ob("fees.address", same(F(t, "fee_address"), F(CFG, "fee_address")), "the fee address stated is not the current one", v.where())
    r.ob("fees.some", len(v.oks) > 0, "fees are never stated", v.where())
    v = ctx.view(FACT, "query", "Config")
    for f, val, _ in v.oks:
        t = js(val)
        r.ob("config", all(same(F(t, x), F(CFG, x)) for x in ("owner", *OPTS)), "the stated configuration is not the stored one", v.where())
    v = ctx.view(FACT, "query", "TrackerConfig")
    for f, val, _ in v.oks:
        r.ob("tracker", all(F(js(val), x) is F(ld("tracker_config"), x) for x in ("code_id", "token_factory_addr")), "the stated tracker configuration is not the stored one", v.where())
    v = ctx.view(FACT, "query", "BlacklistedPairTypes")
    for f, val, _ in v.oks:
        some = False
        for _, c in alts(js(val)):
            for g, x in iterinfo(c):
                src = x.a[0] if x.op == "fld" and x.a[1] == "pair_type" else None
                if not r.ob("disabled.from", src is not None and "pair_configs" in {nsof(y) for y in walk_deep(src) if y.op == "item"}, "a stated type is not one of a stored configuration", v.where()):
                    continue
                some, off = True, [F(src, n) for n in ("is_disabled", "is_generator_disabled")]
                h = plus(g, *[neg(y) for y in off])
                r.ob("disabled.only", h is None, "an enabled type is stated as disabled", v.where())
                for y, z in (off, off[::-1]):
                    r.ob("disabled.each", plus(g, y, neg(z)) is not None, "a disabled type is not stated", v.where())
        r.ob("disabled.some", some, "no type is ever stated as disabled", v.where())


def js(t):
    while t.op == "good":
        t = t.a[0]
    return t.a[0] if t.op == "json" else t


def moved(r, v, e, f):
    """a stored configuration carried over to its new form"""
    if e["kind"] == "remove":
        return
    t = e["val"]
    src = [x for x in walk_deep(F(t, "code_id")) if isload(x, "pair_configs")]
    if not r.ob("migrate.source", len(src) == 1, "a migrated configuration does not come from a stored one", v.where(e)):
        return
    r.ob("migrate.figures", all(F(t, x) is F(src[0], x) for x in PCFIELDS), "migration changes a figure of a configuration", v.where(e))
    r.ob("migrate.open", F(t, "permissioned") is FALSE or F(t, "permissioned") is F(src[0], "permissioned"), "migration makes a type permissioned", v.where(e))
    old = src[0].a[0].a[1]
    for h, (ty,) in cases(f, F(t, "pair_type")):
        keys = [k for g, (k,) in cases(h, e["key"]) if plus(g, *h) is not None]
        for k in keys:
            said = ty.op == "st" and not ty.a[2] and holds(h, lit(is_variant(old, ty.a[1])))
            r.ob("migrate.filed", k is ty or k is old and (said or holds(h, is_eq(old, ty))), "a migrated configuration is filed under another type", v.where(e))
