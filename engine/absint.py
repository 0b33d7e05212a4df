"""Interprocedural abstract interpreter over the dumped MIR.

Domain: hash-consed symbolic values (terms.py) per place, plus a set of must-facts per program point. Facts are
boolean terms that hold on every path reaching the point; at joins they are intersected and the differing parts kept
as one disjunction. Loops are widened to phi terms. Workspace functions and closures are inlined at resolved call
sites, library functions are modelled (models.py) or opaque. Nothing is executed and no path is handed to a solver.
"""
import glob
import json
import os

from terms import *

FN_CAP = 60
BITOPS = {"BitXor": lambda x, y: x ^ y, "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "Shl": lambda x, y: x << min(y, 64), "Shr": lambda x, y: x >> y}
UNROLL = 12


def strip_generics(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("::<", i):
            j, d = i + 2, 0
            while True:
                c = s[j]
                if c == "<":
                    d += 1
                elif c == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


_sg = {}


def sname(s):
    r = _sg.get(s)
    if r is None:
        r = _sg[s] = strip_generics(s)
    return r


class Prog:
    def __init__(self, d):
        self.fns = {}
        self.adts = {}
        self.byname = {}
        self.timpl = {}
        self.crates = {}
        for f in sorted(glob.glob(os.path.join(d, "*.jsonl"))):
            head = None
            for line in open(f):
                r = json.loads(line)
                k = r["rec"]
                if k == "crate":
                    head = r
                    if not r["registry"]:
                        self.crates[r["name"]] = f
                elif k == "fn":
                    r["registry"] = head["registry"]
                    if "::uints::" in r["name"]:
                        continue  # macro-generated big integers: modelled as plain numbers
                    self.fns[r["id"]] = r
                    if not head["registry"]:
                        self.byname.setdefault(r["name"], r)
                    if "timpl" in r:
                        self.timpl.setdefault(r["timpl"], []).append(r["id"])
                elif k == "adt":
                    if r["name"] not in self.adts or not head["registry"]:
                        self.adts[r["name"]] = r
        self.bodies = {}
        self.consts = {}

    def body(self, fid, prom=None):
        k = (fid, prom)
        b = self.bodies.get(k)
        if b is None:
            r = self.fns[fid]
            b = Body(r, r if prom is None else r["promoted"][prom], prom)
            self.bodies[k] = b
        return b


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class Body:
    def __init__(self, fn, raw, prom):
        self.fn = fn
        self.name = fn["name"] + (f"#promoted{prom}" if prom is not None else "")
        self.argc = raw["argc"]
        self.locals = raw["locals"]
        self.names = {i: n for i, n in raw["names"]}
        blocks = raw["blocks"]
        n = len(blocks)
        tgt = list(range(n))

        def res(i):
            seen = []
            while not blocks[i]["s"] and blocks[i]["t"][0] == "goto" and blocks[i]["t"][1] != i and i not in seen:
                seen.append(i)
                i = blocks[i]["t"][1]
            return i

        for i in range(n):
            tgt[i] = res(i)
        self.entry = tgt[0]
        self.stm = [b["s"] for b in blocks]
        self.line = [b["n"] for b in blocks]
        self.term = []
        for b in blocks:
            t = list(b["t"])
            if t[0] == "goto":
                t[1] = tgt[t[1]]
            elif t[0] == "switch":
                t[2] = [[v, tgt[x]] for v, x in t[2]]
                t[3] = tgt[t[3]]
            elif t[0] == "call" and t[4] is not None:
                t[4] = tgt[t[4]]
            elif t[0] == "assert":
                t[3] = tgt[t[3]]
            self.term.append(t)
        # dfs
        order, state, back = [], {}, []
        stack = [(self.entry, iter(succs(self.term[self.entry])))]
        state[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(succs(self.term[s]))))
                    break
                if state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.back = set(back)
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in succs(self.term[b]):
                self.preds[s].append(b)
        self.fpred = {b: sum(1 for p in self.preds[b] if (p, b) not in self.back) for b in self.rpo}
        self.loops = {}
        for b, h in back:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += self.preds[x]
        self.retok = self.locals[0].startswith(("core::result::Result<", "core::option::Option<"))
        self._live()

    def _live(self):
        use, dfn = {}, {}
        self.taken = set()

        def up(p, u, d):
            if p["l"] not in d:
                u.add(p["l"])
            for e in p["p"]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def uo(o, u, d):
            if "l" in o:
                up(o, u, d)

        for b in self.rpo:
            u, d = set(), set()
            for pl, rv, _ in self.stm[b]:
                for x in rv[1:]:
                    if isinstance(x, dict):
                        uo(x, u, d)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict):
                                uo(y, u, d)
                if rv[0] in ("ref", "reborrow") and rv[2]:
                    if not any(e[0] == "d" for e in rv[1]["p"]):
                        self.taken.add(rv[1]["l"])
                    else:
                        self.taken.add(rv[1]["l"])
                if pl["p"]:
                    up(pl, u, d)
                else:
                    d.add(pl["l"])
            t = self.term[b]
            if t[0] == "switch" or t[0] == "assert":
                uo(t[1], u, d)
            elif t[0] == "call":
                uo(t[1], u, d)
                for x in t[2]:
                    uo(x, u, d)
                if t[3]["p"]:
                    up(t[3], u, d)
                else:
                    d.add(t[3]["l"])
            elif t[0] == "return":
                u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in succs(self.term[b]):
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {b: live[b] | self.taken for b in self.rpo}


class S:
    __slots__ = ("fr", "own", "facts", "store", "so")

    def __init__(self):
        self.fr = {}
        self.own = set()
        self.facts = EMPTY
        self.store = {}
        self.so = True

    def copy(self):
        n = S()
        n.fr = dict(self.fr)
        self.own = set()
        n.own = set()
        n.facts = self.facts
        n.store = self.store
        self.so = n.so = False
        return n

    def get(self, fid, l):
        f = self.fr.get(fid)
        if f is None:
            return None
        return f.get(l)

    def put(self, fid, l, v):
        if fid not in self.own:
            self.fr[fid] = dict(self.fr[fid])
            self.own.add(fid)
        self.fr[fid][l] = v

    def setstore(self, k, v):
        if not self.so:
            self.store = dict(self.store)
            self.so = True
        self.store[k] = v


_dids = {}


def dids(t):
    """did tokens mentioned by a fact"""
    if t.op == "did":
        return frozenset([t])
    if t.op == "or":
        r = t._d
        if r is None:
            r = frozenset(x for d in t.a[0] for f in d for x in dids(f))
            t._d = r
        return r
    return EMPTY


def fdids(fs):
    r = set()
    for f in fs:
        r |= dids(f)
    return r


def mk_or(ds):
    """disjunction of fact sets; None when it says nothing"""
    ds = set(ds)
    if len(ds) < 2:
        return None
    if any(not d for d in ds):
        if not any(fdids(d) for d in ds):
            return None
    elif len(ds) == 2 and all(len(d) == 1 for d in ds):
        a, b = [next(iter(d)) for d in ds]
        if neg(a) is b:
            return None
    if len(ds) > 24:
        if not any(fdids(d) for d in ds):
            return None
    return mk("or", frozenset(ds))


def chosen(c, x):
    """what an element contributes to a sum over the collection: nothing where it is filtered out"""
    d = c
    filtered = False
    sure = set()  # what holds of every element, as one which fails it makes the whole fail
    tried = False
    while d is not None and d.op in ("filt", "mapc", "rev", "sorted", "take", "skip", "coll", "rest", "enum"):
        filtered = filtered or d.op == "filt" or d.op == "mapc" and "filter" in d.a[2]
        tried = tried or d.op == "mapc" and "try" in d.a[2]
        if tried and d.op == "mapc" and "filter" not in d.a[2]:
            sure |= {l for g, _ in iterinfo(d) for l in g} - {l for g, _ in iterinfo(d.a[0]) for l in g}
        d = d.a[0]
    fs = iterinfo(c) if filtered else ()
    if len(fs) != 1:
        return x
    g = frozenset(l for l in fs[0][0] if l.op != "did")
    if not g:
        return x
    no = [frozenset([neg(l)]) for l in g - sure]
    if not no:
        return x
    no = no[0] if len(no) == 1 else frozenset([mk_or(no)])
    return alt([(g, x), (no, ZERO)])


def isnext(f):
    """literal about whether an iterator is exhausted: true of one moment only"""
    if f.op == "not":
        f = f.a[0]
    return f.op == "isok" and f.a[0].op == "next"


def based(c):
    """what a field is of"""
    while c.op == "fld":
        c = c.a[0]
    return c


def cutoff(s, cuts):
    """in a state which left a loop before its end, the collections the loop fills up are not what they are after all rounds"""
    for f, fr in list(s.fr.items()):
        for k, v in list(fr.items()):
            if any(contains(v, ph) for ph in cuts):
                s.put(f, k, subst(v, cuts))


class Bound(Exception):
    pass


class Interp:
    def __init__(self, prog, opaque=(), max_steps=4_000_000):
        from models import Models

        self.p = prog
        self.m = Models(self)
        self.opaque = set(opaque)
        self.effects = []
        self.reads = {}
        self.readin = {}
        self.fdc = {}
        self.nfid = 0
        self.ndid = 0
        self.stats = {"calls": 0, "inlined": 0, "blocks": 0, "opaque": {}, "recursion": 0}
        self.fns_seen = set()
        self.constcache = {}
        self.max_steps = max_steps
        self.stack = []
        self.loops = []  # how the loops being evaluated are treated, innermost last

    # ------------------------------------------------------------ facts
    def assume(self, s, c):
        """adds c to the facts of s; False when contradictory"""
        o = c.op
        if o == "bool":
            return c.a[0]
        if o == "and":
            return all(self.assume(s, x) for x in c.a)
        if o == "alt":
            live = []
            for f, t in c.a[0]:
                if t is FALSE:
                    continue
                if any(neg(g) in s.facts for g in f if g.op not in ("or", "did")):
                    continue
                if t.op != "alt" and t is not TRUE and neg(t) in s.facts:
                    continue
                live.append((f, t))
            if not live:
                return False
            if len(live) == 1:
                f, t = live[0]
                for g in f:
                    if not self.addfact(s, g):
                        return False
                return self.assume(s, t)
            ds = []
            for f, t in live:
                d = set(f)
                if t is not TRUE:
                    if t.op == "and":
                        d |= set(t.a)
                    else:
                        d.add(t)
                ds.append(frozenset(d) - s.facts)
            if any(not d for d in ds):
                return True
            r = mk_or(ds)
            if r is not None:
                s.facts = s.facts | {r}
            return True
        if o == "orb":
            xs = [x for x in c.a if neg(x) not in s.facts]
            if not xs:
                return False
            if len(xs) == 1:
                return self.assume(s, xs[0])
            if any(x in s.facts for x in xs):
                return True
            r = mk_or([frozenset([x]) for x in xs])
            if r is not None:
                s.facts = s.facts | {r}
            return True
        return self.addfact(s, c)

    def addfact(self, s, c):
        if c.op == "bool":
            return c.a[0]
        if c in s.facts:
            return True
        if c.op not in ("or", "did"):
            if neg(c) in s.facts:
                return False
            if c.op == "is":
                for v in self.variants_of(c):
                    if v != c.a[1] and mk("is", c.a[0], v) in s.facts:
                        return False
            elif c.op == "lt":
                if lt(c.a[1], c.a[0]) in s.facts or eq(c.a[0], c.a[1]) in s.facts:
                    return False
            elif c.op == "eq":
                if lt(c.a[0], c.a[1]) in s.facts or lt(c.a[1], c.a[0]) in s.facts:
                    return False
                # x == const contradicts x == other const
                for x, k in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                    if k.op in ("int", "str"):
                        for g in s.facts:
                            if g.op == "eq" and (g.a[0] is x and g.a[1].op == k.op or g.a[1] is x and g.a[0].op == k.op):
                                return False
            extra = self.consequences(c)
            if extra:
                s.facts = s.facts | {c} | extra
                return True
        s.facts = s.facts | {c}
        return True

    def consequences(self, c):
        if c.op == "all":
            return frozenset([c.a[1]]) if c.a[1].op not in ("alt", "bool") else EMPTY
        if c.op == "not" and c.a[0].op == "any":
            k = neg(c.a[0].a[1])
            return frozenset([k]) if k.op not in ("alt", "bool") else EMPTY
        if c.op == "not" and c.a[0].op == "isok" and c.a[0].a[0].op == "fnd":
            k = neg(c.a[0].a[0].a[1])
            return frozenset([k]) if k.op not in ("alt", "bool") else EMPTY
        if c.op == "isok" and c.a[0].op == "next":
            fs = iterinfo(c.a[0].a[0])
            if len(fs) == 1:
                return fs[0][0]
        return EMPTY

    _vo = {}

    def variants_of(self, c):
        return self.enumv.get(c.a[0], ()) if hasattr(self, "enumv") else ()

    # ------------------------------------------------------------ merging
    def merge(self, states, keep=None, top=None, vals=None):
        """join; with vals (one list of terms per state) also merges these. returns (state, [vals])"""
        if len(states) == 1:
            return states[0], (vals[0] if vals else None)
        common = states[0].facts
        for s in states[1:]:
            common = common & s.facts
        deltas = [s.facts - common for s in states]
        n = S()
        n.facts = common
        r = mk_or(deltas)
        if r is not None:
            n.facts = common | {r}
        if len(states) > 40:
            dd = [frozenset(x for x in d if x.op == "did") for d in deltas]
        else:
            dd = deltas
        fids = set(states[0].fr)
        for s in states[1:]:
            fids &= set(s.fr)
        for fid in fids:
            fs = [s.fr[fid] for s in states]
            f0 = fs[0]
            if all(f is f0 for f in fs):
                n.fr[fid] = f0
                continue
            out = {}
            ks = f0.keys()
            for k in ks:
                if fid == top and keep is not None and k not in keep:
                    continue
                v0 = f0[k]
                vs = [v0]
                same = True
                miss = False
                for f in fs[1:]:
                    v = f.get(k)
                    if v is None:
                        miss = True
                        break
                    vs.append(v)
                    if v is not v0:
                        same = False
                if miss:
                    continue
                out[k] = v0 if same else alt(zip(dd, vs))
            n.fr[fid] = out
            n.own.add(fid)
        st0 = states[0].store
        if all(s.store is st0 for s in states):
            n.store = st0
            n.so = False
        else:
            ks = set()
            for s in states:
                ks |= set(s.store)
            for k in ks:
                vs = [s.store.get(k) for s in states]
                vs = [mk("may", *k) if v is None else v for v in vs]
                n.store[k] = vs[0] if all(v is vs[0] for v in vs) else alt(zip(dd, vs))
        mv = None
        if vals is not None:
            mv = []
            for i in range(len(vals[0])):
                xs = [v[i] for v in vals]
                mv.append(xs[0] if all(x is xs[0] for x in xs) else alt(zip(dd, xs)))
        return n, mv

    def merge_rets(self, rets):
        """[(state, value)] -> one"""
        if not rets:
            return []
        if len(rets) == 1:
            return rets
        s, v = self.merge([r[0] for r in rets], vals=[[r[1]] for r in rets])
        return [(s, v[0])]

    # ------------------------------------------------------------ places
    def ptr(self, s, fid, place):
        """resolves a place to (fid, local, path)"""
        f, l, path = fid, place["l"], ()
        vpend = None
        for e in place["p"]:
            k = e[0]
            if k == "d":
                v = self.readp(s, f, l, path)
                if v is not None and v.op == "mptr":
                    f, l, path = v.a
                elif v is not None and v.op == "alt" and all(x.op == "mptr" for _, x in v.a[0]):
                    f, l, path = v.a[0][-1][1].a
            elif k == "v":
                vpend = e[1]
            elif k == "f":
                if vpend is not None:
                    if vpend in GOODV:
                        path = path + (("ok",),)
                    else:
                        path = path + (("v", vpend, e[1]),)
                    vpend = None
                else:
                    path = path + (("f", e[1]),)
            elif k == "i":
                path = path + (("i", self.getl(s, fid, e[1])),)
            elif k == "ci":
                path = path + (("i", INT(e[1]) if not e[2] else mk("last", INT(e[1]))),)
        return f, l, path

    def getl(self, s, fid, l):
        v = s.get(fid, l)
        return v if v is not None else mk("uninit", l)

    def readp(self, s, f, l, path):
        v = s.get(f, l)
        if v is None:
            v = mk("uninit", l)
        return get_path(v, path) if path else v

    def deref(self, s, v):
        n = 0
        while v.op == "mptr" and n < 8:
            v = self.readp(s, *v.a)
            n += 1
        if v.op == "alt" and any(x.op == "mptr" for _, x in v.a[0]):
            v = alt((f, self.deref(s, x)) for f, x in v.a[0])
        return v

    def deep(self, s, v, d=3, live=False):
        """value with embedded mutable pointers replaced by what they point to; live: keeps those into frames which are still there"""
        if live and v.op == "mptr" and v.a[0] in s.fr:
            return v
        v = self.deref(s, v)
        if d and v.op in ("st", "good", "arr"):
            if v.op == "st":
                fs = tuple((k, self.deep(s, x, d - 1, live)) for k, x in v.a[2])
                return mk("st", v.a[0], v.a[1], fs) if fs != v.a[2] else v
            if v.op == "good":
                x = self.deep(s, v.a[0], d - 1, live)
                return good(x)
        return v

    def read(self, s, fid, place):
        v = self.getl(s, fid, place["l"])
        vp = None
        for e in place["p"]:
            k = e[0]
            if k == "d":
                v = self.deref1(s, v)
            elif k == "v":
                vp = e[1]
            elif k == "f":
                if v.op == "mptr":
                    v = self.deref(s, v)
                if vp is not None:
                    v = pay(v, vp, e[1])
                    vp = None
                else:
                    v = fld(v, e[1])
            elif k == "i":
                v = idx(self.deref(s, v), self.getl(s, fid, e[1]))
            elif k == "ci":
                v = self.deref(s, v)
                v = idx(v, INT(e[1])) if not e[2] else (idx(v, INT(len(v.a) - e[1])) if v.op == "arr" else idx(v, mk("last", INT(e[1]))))
            elif k == "ss":
                v = self.deref(s, v)
                v = mk("arr", *v.a[e[1] : len(v.a) - e[2] if e[3] else e[2]]) if v.op == "arr" else mk("slice", v, INT(e[1]), INT(e[2]))
        return v

    def deref1(self, s, v):
        if v.op == "mptr":
            return self.readp(s, *v.a)
        if v.op == "alt" and any(x.op == "mptr" for _, x in v.a[0]):
            return alt((f, self.deref1(s, x)) for f, x in v.a[0])
        return v

    def writep(self, s, f, l, path, val):
        if f not in s.fr:
            return
        if not path:
            s.put(f, l, val)
            return
        old = s.get(f, l)
        if old is None:
            old = mk("uninit", l)
        s.put(f, l, set_path(old, path, val))

    def write(self, s, fid, place, val):
        f, l, path = self.ptr(s, fid, place)
        if f in s.fr:
            self.writep(s, f, l, path, val)

    def wptr(self, s, p, val):
        """writes through a pointer term"""
        if p.op == "mptr":
            self.writep(s, p.a[0], p.a[1], p.a[2], val)
        elif p.op == "alt":
            for f, x in p.a[0]:
                if x.op == "mptr":
                    old = self.readp(s, *x.a)
                    self.writep(s, *x.a, alt([(f, val), (EMPTY, old)]))

    # ------------------------------------------------------------ operands
    def const(self, o):
        k = o["k"]
        if k == "int":
            return INT(int(o["v"]))
        if k == "bool":
            return TRUE if o["v"] else FALSE
        if k == "str":
            return STR(o["v"])
        if k == "zst":
            return UNIT if o["ty"] == "()" else mk("st", o["ty"], "", ())
        if k == "fn":
            return mk("fnref", json.dumps(o, sort_keys=True))
        if k == "closure":
            return mk("closure", o["id"], o["name"], ())
        if k == "const":
            key = (o["id"], o["promoted"])
            v = self.constcache.get(key)
            if v is None:
                self.constcache[key] = mk("const", sname(o["name"]))
                v = self.eval_const(o)
                self.constcache[key] = v
            return v
        return mk("const", f"{o.get('ty')}={o.get('v')}")

    def eval_const(self, o):
        nm = sname(o["name"])
        if o["promoted"] is None:
            c = self.m.const(nm)
            if c is not None:
                return c
        if o["id"] not in self.p.fns:
            return mk("const", nm)
        body = self.p.body(o["id"], o["promoted"])
        s = S()
        sv, se = self.stack, self.effects
        self.effects = []
        rets = self.run(body, [], s)
        self.stack, self.effects = sv, se
        if not rets:
            return mk("const", nm)
        return self.merge_rets(rets)[0][1]

    def operand(self, s, fid, o):
        if "l" in o:
            return self.read(s, fid, o)
        return self.const(o)

    def rvalue(self, s, fid, rv, body):
        k = rv[0]
        if k == "use":
            return self.operand(s, fid, rv[1])
        if k in ("ref", "reborrow"):
            if rv[2]:
                f, l, path = self.ptr(s, fid, rv[1])
                if not path and k == "ref":
                    v = s.get(f, l)
                    if v is not None and v.op == "sym" and not rv[1]["p"]:
                        pass
                return mk("mptr", f, l, path)
            return self.read(s, fid, rv[1])
        if k == "cast":
            v = self.operand(s, fid, rv[1])
            return v
        if k == "bin":
            a, b = self.operand(s, fid, rv[2]), self.operand(s, fid, rv[3])
            return self.binop(s, rv[1], a, b)
        if k == "un":
            a = self.operand(s, fid, rv[2])
            if rv[1] == "Not":
                return neg(self.deref(s, a))
            if rv[1] == "Neg":
                return sub(ZERO, a)
            if rv[1] == "PtrMetadata":
                return mklen(self.deref(s, a))
            return call("un" + rv[1], a)
        if k == "discr":
            v = self.deref(s, self.read(s, fid, rv[1]))
            return mk("discr", v, tuple((int(a), b) for a, b in rv[2]))
        if k == "tuple":
            return tup(*[self.operand(s, fid, o) for o in rv[1]])
        if k == "array":
            return arr(*[self.operand(s, fid, o) for o in rv[1]])
        if k == "repeat":
            return mk("rep", self.operand(s, fid, rv[1]))
        if k == "adt":
            vals = [self.operand(s, fid, o) for o in rv[4]]
            return self.adt(rv[1], rv[2], list(zip(rv[3], vals)))
        if k == "closure":
            return mk("closure", rv[1], rv[2], tuple(self.operand(s, fid, o) for o in rv[3]))
        return mk("unk")

    def adt(self, name, variant, fields):
        if name in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"):
            if variant in GOODV:
                return good(fields[0][1])
            return bad(fields[0][1] if fields else UNIT)
        # numeric newtypes wrap transparently
        return mk("st", name, variant if variant != name.rsplit("::", 1)[-1] else "", tuple(fields))

    def binop(self, s, op, a, b):
        a, b = self.deref(s, a), self.deref(s, b)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "AddWithOverflow":
            return tup(add(a, b), mk("ovf"))
        if op == "SubWithOverflow":
            return tup(sub(a, b), mk("ovfsub", a, b))
        if op == "MulWithOverflow":
            return tup(mul(a, b), mk("ovf"))
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return neg(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "BitAnd" and (a.op == "bool" or b.op == "bool" or isbool(a)):
            return andb(a, b)
        if op == "BitOr" and isbool(a):
            return orb(a, b)
        if op == "Rem":
            if a.op == "int" and b.op == "int" and b.a[0]:
                return INT(a.a[0] % b.a[0])
            return call("rem", a, b)
        if a.op == "int" and b.op == "int" and op in BITOPS:
            return INT(BITOPS[op](a.a[0], b.a[0]))
        return call("bin" + op, a, b)

    # ------------------------------------------------------------ bodies
    def run(self, body, args, s0):
        """evaluates a body on argument terms: [(state, return term)]"""
        self.nfid += 1
        fid = self.nfid
        s = s0
        s.fr[fid] = {i + 1: a for i, a in enumerate(args)}
        s.own.add(fid)
        rets = []
        ctx = (body, fid, rets)
        self.fns_seen.add(body.fn["id"])
        self.stack = self.stack + [[body.name, body.fn["file"], body.fn["line"]]]
        self.region(ctx, body.rpo, body.entry, [s], None)
        self.stack = self.stack[:-1]
        groups = {}
        for st_ in rets:
            v = self.getl(st_, fid, 0)
            g = "x"
            if body.retok:
                g = "g" if v.op == "good" else ("b" if v.op == "bad" else "x")
            groups.setdefault(g, []).append(st_)
        out = []
        for g, ss in groups.items():
            for x in ss:
                pass
            m, v = self.merge(ss, keep=(), top=fid, vals=[[self.getl(x, fid, 0)] for x in ss])
            val = v[0] if v else self.getl(m, fid, 0)
            if len(ss) == 1:
                val = self.getl(ss[0], fid, 0)
            m.fr.pop(fid, None)
            m.own.discard(fid)
            out.append((m, val))
        return out

    def combine(self, ctx, b, states):
        body, fid, _ = ctx
        if len(states) == 1:
            return states
        if body.fpred[b] <= 1 and len(states) <= 3:
            return states
        groups = {}
        for s in states:
            g = "x"
            if body.retok:
                v = s.get(fid, 0)
                if v is not None:
                    g = "g" if v.op == "good" else ("b" if v.op == "bad" else "v")
            groups.setdefault(g, []).append(s)
        return [self.merge(ss, keep=body.live[b], top=fid)[0] for ss in groups.values()]

    def region(self, ctx, order, entry, init, header):
        """evaluates a single-entry region in reverse post order; returns (exit edges {target:[states]}, back states)"""
        body, fid, rets = ctx
        blocks = set(order)
        inc = {entry: list(init)}
        exits, backs = {}, []
        skip = set()

        def route(t, s):
            if header is not None and t == header:
                backs.append(s)
            elif t in blocks:
                inc.setdefault(t, []).append(s)
            else:
                exits.setdefault(t, []).append(s)

        for b in order:
            if b in skip:
                continue
            ss = inc.pop(b, None)
            if b in body.loops and b != header:
                skip |= body.loops[b]
                if ss is None:
                    continue
                for t, sl in self.loop(ctx, b, ss).items():
                    for s in sl:
                        route(t, s)
                continue
            if ss is None:
                continue
            if b != header or header is None:
                ss = self.combine(ctx, b, ss)
            for s in ss:
                for t, n in self.block(ctx, b, s):
                    if t == "ret":
                        rets.append(n)
                    else:
                        route(t, n)
        return exits, backs

    def loop(self, ctx, h, states):
        body, fid, rets = ctx
        lb = body.loops[h]
        order = [b for b in body.rpo if b in lb]
        s0, _ = self.merge(states, keep=body.live[h], top=fid) if len(states) > 1 else (states[0], None)
        # only what is live at the header matters
        phis = {}
        lid = newloop()
        n_eff, n_ret = len(self.effects), len(rets)
        exits = self.unroll(ctx, h, order, s0, -lid)
        if exits is not None:
            return exits
        del self.effects[n_eff:]
        del rets[n_ret:]
        cur = s0.copy()
        self.loops.append({"unroll": False, "hits": 0, "id": lid})
        try:
            return self.widened(ctx, h, order, s0, cur, lid, phis, n_eff, n_ret)
        finally:
            self.loops.pop()

    def unroll(self, ctx, h, order, s0, lid):
        """a loop over a collection whose elements are known one by one is evaluated one round at a time"""
        body, fid, rets = ctx
        exits = {}
        cur = s0.copy()
        mode = {"unroll": True, "hits": 0, "id": lid}
        self.loops.append(mode)
        try:
            for n in range(UNROLL + 1):
                mode["hits"] = 0
                ex, backs = self.region(ctx, order, h, [cur.copy()], h)
                if not mode["hits"]:
                    return None
                for t, sl in ex.items():
                    exits.setdefault(t, []).extend(sl)
                if not backs:
                    return exits
                cur, _ = self.merge(backs, keep=body.live[h], top=fid)
            return None
        finally:
            self.loops.pop()

    def widened(self, ctx, h, order, s0, cur, lid, phis, n_eff, n_ret):
        body, fid, rets = ctx
        exits, backs = {}, []
        for it in range(5):
            del self.effects[n_eff:]
            del rets[n_ret:]
            work = cur.copy()
            exits, backs = self.region(ctx, order, h, [work], h)
            if not backs:
                break
            bk, _ = self.merge(backs, keep=body.live[h], top=fid)
            changed = False
            for f in list(cur.fr):
                if f not in bk.fr or bk.fr[f] is cur.fr[f]:
                    continue
                for k, v in list(cur.fr[f].items()):
                    if f == fid and k not in body.live[h]:
                        continue
                    w = bk.fr[f].get(k)
                    if w is not None and w is not v and (f, k) not in phis:
                        ph = mk("phi", lid, f, k)
                        phis[(f, k)] = (ph, v)
                        cur.put(f, k, ph)
                        changed = True
            for k in set(bk.store):
                w = bk.store[k]
                v = cur.store.get(k, mk("may", *k))
                if w is not v and ("store", k) not in phis:
                    ph = mk("phi", lid, "store", k)
                    phis[("store", k)] = (ph, v)
                    if cur.store.get(k) is not None:
                        cur.setstore(k, ph)
                    changed = changed or cur.store.get(k) is not None
            if not changed:
                break
        if not backs:  # no round can complete: the loop is left at once
            for sl in exits.values():
                for s in sl:
                    for lit in s.facts - cur.facts:
                        if lit.op == "not" and isnext(lit):
                            self.addfact(s, eq(mklen(lit.a[0].a[0].a[0]), ZERO))
            return exits
        bk, _ = self.merge(backs, keep=body.live[h], top=fid)
        rep = {}
        colls = list({x.a[0].a[0] for x in bk.facts - cur.facts if x.op == "isok" and isnext(x)})
        for (f, k), (ph, v0) in phis.items():
            step = bk.store.get(k) if f == "store" else (bk.fr.get(f) or {}).get(k)
            if step is None:
                step = ph
            PHI[ph] = (v0, step)
            r = self.resolve_phi(ph, v0, step, colls[0] if len(colls) == 1 else None)
            if r is not None:
                rep[ph] = r
        delta = frozenset(x for x in bk.facts - cur.facts if not isnext(x))
        cuts = {}
        for ph, _ in phis.values():
            if any(x.op == "app" and based(x.a[0]) is ph for x in walk(PHI[ph][1])):
                cuts[ph] = mk("phi", *ph.a, "cut")
                PHI[cuts[ph]] = PHI[ph]
        if cuts:
            for s in rets[n_ret:]:
                cutoff(s, cuts)
        extra = set()
        if fdids(delta):
            o = mk_or([EMPTY, delta])
            if o is not None:
                extra.add(o)
        out = {}
        for t, sl in exits.items():
            o2 = []
            for s in sl:
                new = s.facts - cur.facts
                add_f = set(extra)
                for lit in new:
                    if lit.op == "not" and lit.a[0].op == "isok" and lit.a[0].a[0].op == "next":
                        coll = lit.a[0].a[0].a[0]
                        els = {e for _, e in iterinfo(coll)}
                        roots = {e for e in els if e.op not in ("int", "str", "bool")}
                        for f in delta:
                            if f.op == "did" or f.op != "or" and neg(f) in s.facts:
                                continue
                            if any(x in roots or (x.op == "elem") for x in walk(f, facts=True)):
                                add_f.add(f)
                full = any(x.op == "not" and isnext(x) for x in new)
                drop = {x for x in new if x.op == "not" and isnext(x)}
                if cuts and not full:
                    cutoff(s, cuts)
                s.facts = (s.facts - drop) | add_f
                for (f, k), (ph, v0) in phis.items():
                    if f == "store":
                        if s.store.get(k) is None:
                            continue
                    elif f in s.fr and s.fr[f].get(k) is ph and ph in rep and full:
                        s.put(f, k, rep[ph])
                o2.append(s)
            out[t] = o2
        return out

    def chosen(self, c, x):
        return chosen(c, x)

    def resolve_phi(self, ph, v0, step, coll=None):
        # a list which gets one element for each
        if coll is not None and v0.op == "arr" and not v0.a and step.op == "app" and len(step.a) == 2 and step.a[0] is ph and not contains(step.a[1], ph):
            return mk("mapc", coll, ((EMPTY, step.a[1]),), ())
        # accumulator: step = phi + x
        if step.op == "lin":
            d, c = dict(step.a[0]), step.a[1]
            if d.get(ph) == 1:
                del d[ph]
                x = v_unlin(d, c)
                if not contains(x, ph):
                    return add(v0, mk("sum", chosen(coll, x)))
        if step.op == "alt":
            # added to in some iterations only
            out = []
            for g, y in step.a[0]:
                x = lin_sub(y, ph)
                g = frozenset(l for l in g if not contains(l, ph))
                if y is not ph and (x.op == "lin" and dict(x.a[0]).get(ph) or contains(x, ph)):
                    return None
                out.append((g, x))
            if all(x is INT(0) for _, x in out):
                return None
            return add(v0, mk("sum", chosen(coll, alt(out))))
        return None

    # ------------------------------------------------------------ blocks
    def block(self, ctx, b, s):
        body, fid, rets = ctx
        self.stats["blocks"] += 1
        if self.stats["blocks"] > self.max_steps:
            raise Bound(f"analysis bound exceeded in {body.name}")
        top = self.stack[-1]
        self.curblock = b
        for pl, rv, ln in body.stm[b]:
            top[2] = ln
            if rv[0] == "setdiscr":
                continue
            self.write(s, fid, pl, self.rvalue(s, fid, rv, body)) if pl["p"] else s.put(fid, pl["l"], self.rvalue(s, fid, rv, body))
        t = body.term[b]
        k = t[0]
        top[2] = body.line[b]
        if k == "goto":
            return [(t[1], s)]
        if k == "return":
            return [("ret", s)]
        if k == "dead":
            return []
        if k == "assert":
            c = self.operand(s, fid, t[1])
            if c.op == "ovfsub":
                self.assume(s, le(c.a[1], c.a[0]))
            elif c.op != "ovf" and t[4] in ("bounds", "divzero"):
                if not self.assume(s, c if t[2] else neg(c)):
                    return []
            return [(t[3], s)]
        if k == "switch":
            return self.switch(s, fid, t)
        if k == "call":
            return self.callterm(ctx, s, t)
        return []

    def switch(self, s, fid, t):
        v = self.operand(s, fid, t[1])
        out = []
        v = self.deref(s, v)
        if v.op == "discr":
            x, names = v.a
            nm = dict(names)
            used = []
            for val, tgt in t[2]:
                name = nm.get(int(val))
                used.append(name)
                n = s.copy()
                if self.enum_assume(n, x, name, nm.values()):
                    out.append((tgt, n))
            rest = [w for w in nm.values() if w not in used]
            if rest:
                n = s.copy()
                if len(rest) == 1:
                    if self.enum_assume(n, x, rest[0], nm.values()):
                        out.append((t[3], n))
                else:
                    okk = all(self.assume(n, neg(is_variant(x, u))) for u in used)
                    if okk:
                        out.append((t[3], n))
            return out
        if t[4] == "bool":
            for val, tgt in t[2]:
                n = s.copy()
                if self.assume(n, neg(v) if int(val) == 0 else v):
                    out.append((tgt, n))
            n = s.copy()
            if self.assume(n, v if int(t[2][0][0]) == 0 else neg(v)):
                out.append((t[3], n))
            return out
        for val, tgt in t[2]:
            n = s.copy()
            if self.assume(n, eq(v, INT(int(val)))):
                out.append((tgt, n))
        n = s.copy()
        if all(self.assume(n, neg(eq(v, INT(int(val))))) for val, _ in t[2]):
            out.append((t[3], n))
        return out

    def enum_assume(self, s, x, name, names):
        lit = is_variant(x, name)
        if lit.op == "is":
            for w in names:
                if w != name and mk("is", x, w) in s.facts:
                    return False
        return self.assume(s, lit)

    def callterm(self, ctx, s, t):
        body, fid, rets = ctx
        _, f, args, dest, target = t
        av = [self.operand(s, fid, a) for a in args]
        line = self.stack[-1][2]
        self.inloop = any(self.curblock in lb for lb in body.loops.values())
        if f.get("k") == "fn":
            res = self.dispatch(s, f, av)
        else:
            res = self.apply(s, self.operand(s, fid, f), av)
        self.stack[-1][2] = line
        if target is None:
            return []
        out = []
        for n, v in res:
            if dest["p"]:
                self.write(n, fid, dest, v)
            else:
                n.put(fid, dest["l"], v)
            out.append((target, n))
        return out

    def dispatch(self, s, f, av):
        """f: the dumped function reference"""
        self.stats["calls"] += 1
        name = sname(f["name"])
        if f.get("ctor"):
            adt, var, fs = f["ctor"]
            return [(s, self.adt(adt, var, list(zip(fs, av))))]
        h = self.m.first(name)
        if h is not None:
            return h(s, f, av)
        rid = f["rid"] if f["rid"] in self.p.fns else (f["id"] if f["id"] in self.p.fns else None)
        if rid is None and f.get("trait"):
            c = self.p.timpl.get(f["id"], [])
            if len(c) == 1 and self.m.find(name) is None:
                rid = c[0]
        if rid is not None and name not in self.opaque and sname(self.p.fns[rid]["name"]) not in self.opaque:
            fn = self.p.fns[rid]
            again = sum(x[0] == fn["name"] for x in self.stack)
            # recursion which counts its depth is followed
            if again and (again > 5 or not any(a.op == "int" for a in av)) or len(self.stack) > FN_CAP:
                self.stats["recursion"] += 1
            else:
                self.stats["inlined"] += 1
                return self.run(self.p.body(rid), list(av), s)
        h = self.m.find(name)
        if h is not None:
            return h(s, f, av)
        return self.opaque_call(s, name, av)

    def opaque_call(self, s, name, av):
        self.stats["opaque"][name] = self.stats["opaque"].get(name, 0) + 1
        vals = [self.deep(s, a) for a in av]
        for i, a in enumerate(av):
            if a.op == "mptr" and not is_dep(vals[i]):
                self.wptr(s, a, mk("mut", name, i, tuple(vals)))
        return [(s, call(name, *vals))]

    def apply(self, s, f, av):
        """calls a function value"""
        f = self.deref(s, f)
        if f.op == "closure":
            b = self.p.fns.get(f.a[0])
            if b is None:
                return [(s, call("closure", *[self.deep(s, a) for a in av]))]
            if len(self.stack) > FN_CAP:
                raise Bound("closure depth")
            body = self.p.body(f.a[0])
            # captured environment: fields of _1
            env = mk("st", "closure", "", tuple((str(i), c) for i, c in enumerate(f.a[2])))
            return self.run(body, [env] + list(av), s)
        if f.op == "fnref":
            return self.dispatch(s, json.loads(f.a[0]), list(av))
        if f.op == "alt":
            out = []
            for g, x in f.a[0]:
                n = s.copy()
                n.facts = n.facts | g
                out += self.apply(n, x, av)
            return self.merge_rets(out)
        return [(s, call("apply", f, *[self.deep(s, a) for a in av]))]

    # ------------------------------------------------------------ effects
    def fd(self, fs):
        r = self.fdc.get(fs)
        if r is None:
            r = self.fdc[fs] = frozenset(fdids(fs))
        return r

    def effect(self, s, kind, **data):
        self.ndid += 1
        tok = mk("did", self.ndid)
        e = {
            "id": self.ndid,
            "kind": kind,
            "tok": tok,
            "facts": s.facts,
            "site": [tuple(x) for x in self.stack],
        }
        e.update(data)
        self.effects.append(e)
        s.facts = s.facts | {tok}
        return e


def v_unlin(d, c):
    r = INT(c)
    for k, v in d.items():
        r = add(r, k) if v == 1 else (sub(r, k) if v == -1 else add(r, mul(INT(v), k)))
    return r


def isbool(t):
    return t.op in ("bool", "eq", "lt", "le", "not", "isok", "is", "and", "orb", "any", "all", "alt", "contains")


def is_dep(v):
    while v.op == "fld":
        v = v.a[0]
    return v.op == "sym" and str(v.a[0]).startswith("deps")
