"""C08: topology views reflect every change of connectivity, in every variant."""
from common import *
from rules import c01, c03

MUT = c03.MUT | {"push_front", "pop_front", "splice", "remove", "shrink_to_fit"}
CLEAR = {"reset", "clear"}
LIFE = set(c01.OPS)
BASE_T = I + "Terminal"
BASE_B = I + "Bus"
BASE_VL = I + "VoltageLevel"
GRAPH = "powsybl::math::UndirectedGraph"


def is_graph(c):
    return bool(c) and strip_tpl(c) == GRAPH


def inline_all(f, rec, obj, depth):
    return True


# ---------------------------------------------------------------- caches

def strip(n):
    while n.op == "un" and n.a[0] in ("bool", "!", "*"):
        n = n.a[1]
    return n


def presence(c, F):
    """The condition only asks whether (or how much) of the cache is there: "set" / "unset" when true, else None."""
    if c.op == "un" and c.a[0] == "!":
        r = presence(c.a[1], F)
        return {"set": "unset", "unset": "set"}.get(r)
    c0 = strip_bool(c)
    if c0 is F:
        return "set"
    if c0.op == "call" and c0.a[1] is F:
        n = mname(c0.a[0])
        if n == "empty":
            return "unset"
        if n in ("operator bool", "is_initialized", "has_value", "get"):
            return "set"
    if c0.op == "empty" and c0.a and c0.a[0] is F:
        return "unset"
    if c0.op == "op" and c0.a[0] in ("==", "!=", "<", ">"):
        if F in (c0.a[1], c0.a[2]) and NULL in (c0.a[1], c0.a[2]):
            return "unset" if c0.a[0] == "==" else "set"
        if any(x.op == "call" and x.a[1] is F and mname(x.a[0]) == "size" for x in (c0.a[1], c0.a[2])):
            return "size"
    return None


def loc_field(ev, this=THIS):
    """Name of the field of this that the event changes, with its kind ("clear" or "change")."""
    if ev.k == "store":
        n, v = ev.d
        if n.op == "fld" and n.a[0] is this:
            return n.a[1], ("clear" if v is NULL or v.op == "none" or (v.op in ("obj", "list") and not any(v.a[1:])) else "change")
        m = n
        while m.op in ("fld", "at", "elem", "found"):
            if m.op == "fld" and m.a[0] is this:
                return m.a[1], "change"
            m = m.a[0]
    elif ev.k == "call":
        n = ev.d[3]
        if isinstance(n, Node) and ev.d[1] in MUT | CLEAR:
            m = n
            while m.op in ("fld", "at", "elem", "found"):
                if m.op == "fld" and m.a[0] is this:
                    return m.a[1], ("clear" if n is m and ev.d[1] in CLEAR else "change")
                m = m.a[0]
    return None, None


def find_caches(ctx):
    """Fields that a method fills when they are unset and leaves alone otherwise: (class, field) -> filling methods."""
    p = ctx.p
    out = {}
    for cid in sorted(p.classes):
        if not cid.startswith("powsybl::"):
            continue
        fields = {x["n"] for x in p.classes[cid]["fields"]}
        if not fields:
            continue
        for f in ctx.methods(cid):
            r = p.funcs.get(f)
            if not r or r.get("kind") in ("ctor", "dtor") or not r.get("body") or mname(f) in LIFE:
                continue
            txt = mentions_fields(p, f)
            cand = fields & txt
            if not cand:
                continue
            e = ctx.summary(f, own_only(p, cid), "c08own" + cid, maxdepth=3)
            for ev in e.events:
                n, k = loc_field(ev)
                if n in cand and k == "change":
                    F = N("fld", THIS, n)
                    for c, pol in ev.g:
                        pr = presence(c, F)
                        if pr == "size" or pr == ("set" if not pol else "unset"):
                            # an argument dependent fill is no cache of the object's state
                            if r.get("p"):
                                args = {x["n"] for x in r["p"]}
                                if any(y.op == "param" and y.a[0] in args for y in subnodes(N("seq", *[q for q in ev.d if isinstance(q, Node)]))):
                                    continue
                            out.setdefault((cid, n), set()).add(f)
    for k, fs in out.items():
        inner = {f for f in fs if not (mentions(p)[f] & (fs - {f}) - {f})}
        if inner:
            out[k] = inner
    return out


_mf = {}


def mentions_fields(p, f):
    r = _mf.get(f)
    if r is None:
        r = set()
        todo = [p.funcs[f].get("body"), p.funcs[f].get("inits")]
        while todo:
            x = todo.pop()
            if isinstance(x, str):
                r.add(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif isinstance(x, (list, tuple)):
                todo.extend(x)
        _mf[f] = r
    return r


def own_only(p, cid):
    own = {m["f"] for b in p.bases(cid) if b in p.classes for m in p.classes[b]["methods"]}

    def pol(f, rec, obj, depth):
        return f in own and obj is THIS
    return pol


def owned_caches(ctx, caches, cid, seen=()):
    """Chains of field names from an object of class cid to the caches it owns."""
    p = ctx.p
    out = set()
    for b in p.bases(cid):
        r = p.classes.get(b)
        if not r:
            continue
        for x in r["fields"]:
            if (b, x["n"]) in caches:
                out.add((x["n"],))
            t = x["t"]
            if t.endswith("&") or "reference_wrapper" in t or "Reference<" in t:
                continue
            ts = {t}
            u = t
            while "<" in u and u.endswith(">"):
                a = c01.split_args(u[u.index("<") + 1:-1])
                u = a[0].strip() if a else ""
                ts.add(u)
            for t1 in ts:
                t1 = t1.replace("const ", "").strip()
                if t1 in p.classes and t1 not in seen and t1 != cid and not is_graph(t1):
                    for ch in owned_caches(ctx, caches, t1, seen + (cid,)):
                        out.add((x["n"],) + ch)
    return out


def chain_of(n):
    """Trailing names of an access path (indexing and calls skipped)."""
    names = []
    while True:
        if n.op == "fld":
            names.append(n.a[1])
            n = n.a[0]
        elif n.op in ("at", "elem", "found"):
            n = n.a[0]
        elif n.op == "un" and n.a[0] == "*":
            n = n.a[1]
        elif n.op == "call" and n.a[1] is not None and not n.a[2]:
            n = n.a[1]
        else:
            break
    return tuple(reversed(names))


def check_invalidate_complete(ctx, caches):
    p = ctx.p
    net = owned_caches(ctx, caches, I + "Network")
    net = {c for c in net}
    vls = [c for c in p.subclasses(BASE_VL) if not p.classes[c].get("abstract")]
    for cid in sorted(vls):
        inv = invalidators(ctx, cid)
        own = owned_caches(ctx, caches, cid)
        for need, who in [(c, "its own") for c in sorted(own)] + [(c, "the network's") for c in sorted(net)]:
            inst = "%s clears %s.%s" % (short(cid), who, ".".join(need[1:] or need))
            ctx.inst("invalidate", inst)
            ok = False
            why = "is not cleared"
            for f in inv:
                e = ctx.summary(f, inline_all, "c08all" + cid, dyn=cid)
                tg = c03.throw_guards(e)
                for ev in e.events:
                    if ev.k not in ("store", "call"):
                        continue
                    n = ev.d[0] if ev.k == "store" else ev.d[3]
                    if not isinstance(n, Node):
                        continue
                    if ev.k == "store" and not (ev.d[1] is NULL or ev.d[1].op == "none"):
                        continue
                    if ev.k == "call" and ev.d[1] not in CLEAR:
                        continue
                    ch = chain_of(n)
                    if len(ch) < len(need) or ch[-2:] != need[-2:]:
                        continue
                    extra = [c for c, pol in ev.g if (canon(c), not pol) not in tg and not (presence(c, n) or presence(canon(c), canon(n)))]
                    if ev.loops or extra:
                        why = "is cleared under a condition only (%s)" % (show(extra[0])[:80] if extra else "loop")
                        continue
                    ok = True
            if not ok:
                ctx.viol("invalidate", inst, ctx.loc(inv[0]) if inv else cid, "invalidating the topology of a %s: %s cache %s %s" % (short(cid), who, ".".join(need), why))
    ctx.need("invalidate", 10)


_inv = {}


def invalidators(ctx, cid):
    """Overrides of the virtual invalidation method: the method without parameters, declared by VoltageLevel, whose override clears caches."""
    p = ctx.p
    out = []
    for m in p.classes[BASE_VL]["methods"]:
        if not m.get("v") or m["p"] or m["rt"] != "void" or "nvalidate" not in mname(m["f"]):
            continue
        g = p.find_override(cid, m["f"])
        if g:
            out.append(g)
    return out


# ---------------------------------------------------------------- mutations

class Prim:
    """What counts as a direct change of connectivity."""

    def __init__(self, ctx):
        p = ctx.p
        self.fields = {}           # (class, field) of per-variant connectivity
        vf = c01.variant_fields(ctx)
        for (c, f) in vf:
            t = [x["t"] for x in p.classes[c]["fields"] if x["n"] == f][0]
            el = t[t.index("<") + 1:] if "<" in t else t
            bs = p.bases(c)
            if c == I + "Switch" and el.startswith("bool"):
                self.fields[(c, f)] = 1
            elif BASE_T in bs and (el.startswith("bool") or "string" in el):
                self.fields[(c, f)] = 1
            elif BASE_B in bs and "Terminal" in el:
                self.fields[(c, f)] = 1
        self.names = {f for c, f in self.fields}
        self.graph = {}            # graph method -> "edges" / "objects"
        for cid in sorted(c for c in p.classes if is_graph(c)):
            av = c01.split_args(cid[cid.index("<") + 1:-1])
            terminal = bool(av) and BASE_T in p.bases(av[0].strip())
            efields = {x["n"] for x in p.classes[cid]["fields"] if "::Edge" in x["t"] and "unique_ptr" in x["t"]}
            vfields = {x["n"] for x in p.classes[cid]["fields"] if "::Vertex" in x["t"] and "unique_ptr" in x["t"]}
            for m in p.classes[cid]["methods"]:
                f = m["f"]
                r = p.funcs.get(f)
                if not r or not r.get("body") or r.get("kind") in ("ctor", "dtor") or m.get("const"):
                    continue
                e = ctx.summary(f, inline_all, "c08all")
                for ev in e.events:
                    n, k = loc_field(ev)
                    if n in efields:
                        self.graph[f] = "edges"
                    if terminal and ev.k == "store" and n in vfields and ev.d[0].op == "fld" and ev.d[0].a[0].op in ("at", "elem"):
                        self.graph.setdefault(f, "objects")
        ctx.notes.append("connectivity state: %s; graph changes: %s" % (sorted("%s.%s" % (short(c), f) for c, f in self.fields), sorted({"%s" % short(f) for f in self.graph})))

    def of(self, ev):
        """Description of the change made by the event, and whether it concerns every variant."""
        if ev.k == "store":
            n = ev.d[0]
            if n.op == "at" and n.a[0].op == "fld" and n.a[0].a[1] in self.names and self.live(n):
                return n.a[0].a[1], False
        elif ev.k in ("call", "enter"):
            f, name, cls, obj = ev.d[:4]
            if f in self.graph and isinstance(obj, Node) and self.live(obj):
                return "%s (%s)" % (name, self.graph[f]), True
            if ev.k == "call" and name in MUT and isinstance(obj, Node):
                n = obj
                while n.op in ("elem", "at", "found"):
                    if n.op in ("at",) and n.a[0].op == "fld" and n.a[0].a[1] in self.names and self.live(n):
                        return n.a[0].a[1], False
                    n = n.a[0]
        return None

    @staticmethod
    def live(n):
        r = root(n)
        return r.op not in ("new", "obj")


def lam_cb(ev, name):
    for lp in ev.loops:
        if lp[0] == "cb" and isinstance(lp[1], Node) and mname(lp[1].a[0]) == name:
            return lp
    return None


def check_mutations(ctx, caches, prim):
    p = ctx.p
    fillers = set()
    for k, fs in caches.items():
        if not is_graph(k[0]):
            fillers |= fs
    reach_fill = reaching(p, fillers)
    inv_names = {mname(f) for cid in p.subclasses(BASE_VL) for f in invalidators(ctx, cid)}
    inv_all = {f for cid in p.subclasses(BASE_VL) for f in invalidators(ctx, cid)} | {m["f"] for m in p.classes[BASE_VL]["methods"] if mname(m["f"]) in inv_names}

    reach_inv = reaching(p, inv_all)

    # seeds: functions whose own body touches the connectivity state
    back = callers(p)
    unc = {}       # function -> what it leaves uncovered
    direct = set()
    for f, r in p.funcs.items():
        c = r.get("c")
        if is_graph(c) or is_graph((c or "").rsplit("::", 1)[0]) or not f.startswith(I):
            continue
        if mname(f) in LIFE or r.get("kind") in ("ctor", "dtor"):
            continue
        ms = mentions_fields(p, f)
        if ms & prim.names and any(b in {x for x, y in prim.fields} for b in p.bases(c or "")):
            direct.add(f)
        if mentions(p)[f] & set(prim.graph):
            direct.add(f)
    todo = sorted(direct)
    done = {}
    rounds = 0
    while todo and rounds < 6:
        rounds += 1
        nxt = set()
        for f in todo:
            res = analyse(ctx, f, prim, unc, inv_all, reach_fill, reach_inv)
            done[f] = res
            if res:
                old = unc.get(f)
                unc[f] = res
                if old != res:
                    for g in back.get(f, ()):
                        r = p.funcs[g]
                        if r.get("kind") in ("ctor", "dtor") or mname(g) in LIFE or is_graph(r.get("c")):
                            continue
                        nxt.add(g)
                    # a virtual function is called through its base
                    for b in base_decls(p, f):
                        for g in back.get(b, ()):
                            nxt.add(g)
            elif f in unc:
                del unc[f]
        todo = sorted(nxt)
    for f in sorted(done):
        r = p.funcs[f]
        c = r.get("c")
        inst = short(f) + "(" + ",".join(x["t"].split("::")[-1] for x in r.get("p", ())) + ")"
        ctx.inst("mutation", inst)
        if not done[f]:
            continue
        open_ = user_callable(p, f) or not [g for g in back.get(f, ()) if g != f]
        if not open_:
            # pushed to its callers, which were analysed with it inlined
            continue
        for what, all_variants, ev, why in done[f]:
            ctx.viol("mutation", "%s|%s" % (inst, what), ctx.loc(f), "%s changes %s and %s%s" % (inst, what, why, " (%s)" % ev if ev else ""))
    ctx.need("mutation", 20)


def reaching(p, targets):
    """Functions from whose body (callees, overrides included) a target can be called."""
    back = callers(p)
    seen = set(targets)
    todo = list(targets)
    while todo:
        f = todo.pop()
        for g in set(back.get(f, ())) | set().union(*[back.get(b, set()) for b in base_decls(p, f)] or [set()]):
            if g not in seen:
                seen.add(g)
                todo.append(g)
        for b in base_decls(p, f):
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


_bd = {}


def base_decls(p, f):
    r = _bd.get(f)
    if r is None:
        r = set()
        c = p.funcs.get(f, {}).get("c")
        n = mname(f)
        if c in p.classes:
            sig = sigof(f)
            for b in p.bases(c):
                if b == c or b not in p.classes:
                    continue
                for m in p.classes[b]["methods"]:
                    if m.get("v") and mname(m["f"]) == n and sigof(m["f"]) == sig:
                        r.add(m["f"])
        _bd[f] = r
    return r


def sigof(f):
    i = f.find("(")
    return f[i:]


def user_callable(p, f):
    r = p.funcs[f]
    c = r.get("c")
    if c not in p.classes:
        return r.get("file", "").startswith("include/")
    acc = [m["acc"] for m in p.classes[c]["methods"] if m["f"] == f]
    if p.classes[c].get("file", "").startswith("include/") and acc and acc[0] == "public":
        return True
    return bool(base_decls(p, f))


def analyse(ctx, f, prim, unc, inv_all, reach_fill, reach_inv):
    p = ctx.p

    def pol(g, rec, obj, depth):
        if g in inv_all or g in prim.graph or is_graph((rec or {}).get("c")):
            return False
        if mname(g) in ("forEachVariant",):
            return False
        if g in unc or g in reach_inv:
            return True
        r = p.funcs.get(g)
        # accessors only: nothing that changes state, nothing heavy
        return bool(r) and (g.endswith(" const") or mname(g).startswith("get") or not r.get("c") or r["c"] == p.funcs[f].get("c") and not user_callable(p, g))
    e = Engine(p, pol, maxdepth=8, cha=True)
    e.run(f)
    tg = c03.throw_guards(e)
    invs = []
    muts = []
    for i, ev in enumerate(e.events):
        if ev.k in ("call", "enter") and ev.d[0] in inv_all:
            invs.append((i, ev))
            continue
        m = prim.of(ev)
        if m:
            muts.append((i, ev, m))
    fe = {}
    out = []
    for i, ev, (what, allv) in muts:
        cb = lam_cb(ev, "forEachVariant")
        allv = allv or cb is not None
        g = {(canon(c), po) for c, po in ev.g}
        why = "no view cache is invalidated"
        ok = False
        for j, iv in invs:
            ig = {(canon(c), po) for c, po in iv.g}
            extra = [x for x in ig - g if (x[0], not x[1]) not in tg and not implied(x, g)]
            icb = lam_cb(iv, "forEachVariant")
            if extra:
                why = "the view caches are only invalidated when %s%s" % ("" if extra[0][1] else "not ", show(extra[0][0])[:100])
                continue
            loops = [lp for lp in iv.loops if lp not in ev.loops and lp is not icb]
            if loops:
                why = "the view caches are only invalidated inside a loop that may run zero times"
                continue
            if allv and icb is None:
                why = "the view caches are invalidated in the working variant only"
                continue
            if j < i:
                mid = [x for x in e.events[j + 1:i] if x.k == "call" and x.d[0] in reach_fill and x.d[0] not in inv_all]
                if mid:
                    why = "a view is read (%s) between the invalidation and the change" % short(mid[0].d[0])
                    continue
            ok = True
            break
        if not ok:
            out.append((what, allv, ev.loc(), why))
    return out


def implied(x, g):
    c, pol = x
    # weaker form of a conjunction/disjunction known to hold
    for d, dp in c03.flat(list(g)):
        if d is c and dp == pol:
            return True
    return False


# ---------------------------------------------------------------- caches of an object's own state

def check_own_caches(ctx, caches):
    """A cache computed from the object's own fields is cleared by every method changing these fields."""
    p = ctx.p
    for (cid, F), fs in sorted(caches.items()):
        src = set()
        own = {x["n"]: x for b in p.bases(cid) if b in p.classes for x in p.classes[b]["fields"]}
        for f in fs:
            src |= mentions_fields(p, f) & set(own)
        src -= {F}
        src = {s for s in src if "mutex" not in own[s]["t"] and not own[s]["t"].endswith("&") and "reference_wrapper" not in own[s]["t"] and not own[s]["t"].startswith("const ")}
        if not src:
            continue
        for m in p.classes[cid]["methods"]:
            f = m["f"]
            r = p.funcs.get(f)
            if not r or not r.get("body") or r.get("kind") in ("ctor", "dtor") or f in fs or m["acc"] != "public" or m.get("const"):
                continue
            e = ctx.summary(f, inline_all, "c08all")
            tg = c03.throw_guards(e)
            ch = []
            cl = []
            for ev in e.events:
                n, k = loc_field(ev)
                if n in src and not inside(ev):
                    ch.append((ev, n))
                if n == F and k == "clear":
                    cl.append(ev)
            for ev, n in ch:
                inst = "%s|%s" % (short(f), n)
                ctx.inst("own-cache", inst)
                g = {canon_g(x) for x in ev.g}
                ok = False
                for c in cl:
                    extra = [x for x in {canon_g(y) for y in c.g} - g if (x[0], not x[1]) not in tg]
                    if not extra and not [lp for lp in c.loops if lp not in ev.loops]:
                        ok = True
                if not ok:
                    ctx.viol("own-cache", inst, ctx.loc(f), "%s changes %s but does not clear %s, which is computed from it" % (short(f), n, F))
    ctx.need("own-cache", 8)


def canon_g(x):
    return canon(x[0]), x[1]


def inside(ev):
    """The change concerns the content of an element (an object held by the container), not the container."""
    if ev.k == "store":
        n = ev.d[0]
        return n.op == "fld" and n.a[0].op in ("at", "elem", "found", "fld") and n.a[0] is not THIS
    return False


# ---------------------------------------------------------------- read discipline

def check_reads(ctx, caches):
    """A cache is only read after it was brought up to date."""
    p = ctx.p
    back = callers(p)
    for (cid, F), fs in sorted(caches.items()):
        if is_graph(cid):
            continue
        fillnames = set(fs)
        # wrappers of the filling method count as filling methods
        grown = True
        while grown:
            grown = False
            for f in ctx.methods(cid):
                if f in fillnames or f not in p.funcs or not p.funcs[f].get("body"):
                    continue
                if mentions(p)[f] & fillnames and F not in mentions_fields(p, f) and filled_first(ctx, f, fillnames, None):
                    fillnames.add(f)
                    grown = True
        for f in sorted(ctx.methods(cid)):
            r = p.funcs.get(f)
            if not r or not r.get("body") or f in fs or r.get("kind") in ("ctor", "dtor") or mname(f) in LIFE:
                continue
            if F not in mentions_fields(p, f):
                continue
            e = ctx.summary(f, own_only_without(p, cid, fillnames), "c08rd" + cid + F)
            ns = set()
            ro = True
            for ev in e.events:
                n, k = loc_field(ev)
                if n == F and k == "clear":
                    ro = False
            if not ro:
                continue
            inst = "%s reads %s" % (short(f), F)
            ctx.inst("read", inst)
            if filled_first(ctx, f, fillnames, F, e):
                continue
            # the caller's duty then
            cs = [g for g in back.get(f, ()) if g != f]
            if not cs:
                if user_callable(p, f):
                    ctx.viol("read", inst, ctx.loc(f), "%s reads the cache %s without bringing it up to date first" % (short(f), F))
                continue
            for g in sorted(cs):
                inst2 = "%s calls %s" % (short(g), short(f))
                ctx.inst("read", inst2)
                if not p.funcs.get(g, {}).get("body"):
                    continue
                if not caller_fills(ctx, g, f, fillnames):
                    ctx.viol("read", inst2, ctx.loc(g), "%s reads the cache %s of %s without bringing it up to date first" % (short(g), F, short(cid)))
    ctx.need("read", 8)


def own_only_without(p, cid, fill):
    base = own_only(p, cid)

    def pol(f, rec, obj, depth):
        return f not in fill and base(f, rec, obj, depth)
    return pol


def filled_first(ctx, f, fill, F, e=None):
    p = ctx.p
    cid = p.funcs[f].get("c")
    if e is None:
        e = ctx.summary(f, own_only_without(p, cid, fill), "c08ff" + cid)
    fl = N("fld", THIS, F) if F else None
    tg = c03.throw_guards(e)
    for i, ev in enumerate(e.events):
        if ev.k in ("call", "enter") and ev.d[0] in fill and strip_cast(ev.d[3]) is THIS:
            extra = [x for x in ev.g if (canon(x[0]), not x[1]) not in tg]
            return not extra and not ev.loops
        if fl is not None:
            for d in list(ev.d) + [c for c, _ in ev.g]:
                if isinstance(d, Node) and contains(d, fl):
                    return False
    return False


def strip_cast(n):
    while isinstance(n, Node) and n.op in ("un", "cast") and isinstance(n.a[-1], Node):
        n = n.a[-1]
    return n


def caller_fills(ctx, g, f, fill):
    p = ctx.p
    fn = {mname(x) for x in fill}

    def pol(h, rec, obj, depth):
        return h not in fill and h != f and (h.endswith(" const") or mname(h).startswith("get"))
    e = Engine(p, pol, maxdepth=5)
    e.run(g)
    ok = None
    for i, ev in enumerate(e.events):
        if ev.k in ("call", "enter") and (ev.d[0] == f or mname(ev.d[0]) == mname(f) and cname(ev.d[0]) == cname(f)):
            obj = canon(ev.d[3]) if isinstance(ev.d[3], Node) else None
            found = False
            for pv in e.events[:i]:
                if pv.k in ("call", "enter") and mname(pv.d[0]) in fn and isinstance(pv.d[3], Node) and canon(pv.d[3]) is obj:
                    if {canon_g(x) for x in pv.g} <= {canon_g(x) for x in ev.g} and all(lp in ev.loops for lp in pv.loops):
                        found = True
            if not found:
                return False
            ok = True
    return ok is not False


# ---------------------------------------------------------------- members of the components

def range_of(p, rt):
    """Class of the elements of a range type."""
    a = c01.split_args(rt[rt.index("<") + 1:rt.rindex(">")]) if "<" in rt else []
    t = a[0].replace("const ", "").replace("&", "").strip() if a else ""
    return t if t in p.classes else None


def end_of(n):
    """The terminal (or station) an argument is derived from, and the views asked on the way."""
    views = set()
    while n.op == "call" and n.a[1] is not None and not n.a[2] and mname(n.a[0]) in ("getBus", "getBusView", "getBusBreakerView", "getConnectableBus"):
        views.add(mname(n.a[0]))
        n = n.a[1]
    return n, views


def joined(ctx, f, cid):
    """Model class -> (pairs of ends joined, views used, guards)."""
    p = ctx.p
    out = {}
    own = {m["f"] for b in p.bases(cid) if b in p.classes for m in p.classes[b]["methods"]}
    e = ctx.summary(f, lambda h, rec, obj, d: h in own and not mname(h).startswith("get"), "c08it" + cid, dyn=cid)
    for ev in e.events:
        if ev.k not in ("call", "enter"):
            continue
        ends = []
        vs = set()
        kind = None
        for a in ev.d[4]:
            if not isinstance(a, Node):
                continue
            a = canon(c03.strip_copy(a))
            ks = set()
            for n in subnodes(a):
                if n.op == "elem" and n.a[0].op == "call":
                    k = range_of(p, p.funcs.get(n.a[0].a[0] + " const", p.funcs.get(n.a[0].a[0], {})).get("rt", ""))
                    if k:
                        ks.add(k)
            if len(ks) == 1:
                t, v = end_of(a)
                ends.append(t)
                vs |= v
                kind = ks.pop()
        if kind:
            o = out.setdefault(kind, [set(), set(), []])
            for i in range(len(ends)):
                for j in range(i + 1, len(ends)):
                    if ends[i] is not ends[j]:
                        o[0].add(frozenset((ends[i], ends[j])))
                        o[1] |= vs
                        o[2].append(ev)
    return out


def check_components(ctx, caches):
    p = ctx.p
    man = {c for (c, F) in caches if c.startswith(I) and [m for m in ctx.methods(c) if mname(m) == "fillAdjacencyList"]}
    for base in sorted(man):
        for cid in sorted(p.subclasses(base)):
            if p.classes[cid].get("abstract"):
                continue
            fa = p.find_override(cid, [m for m in ctx.methods(base) if mname(m) == "fillAdjacencyList"][0])
            jn = joined(ctx, fa, cid)
            ks = set(jn)
            for k in sorted(ks):
                inst = "%s: pairs of ends of a %s" % (short(cid), short(k))
                ctx.inst("component", inst)
                n = 3 if k == I + "ThreeWindingsTransformer" else 2
                pairs, views, evs = jn[k]
                if not pairs:
                    ctx.undecided("component", inst, "pairs of ends not recognised")
                elif len(pairs) < n * (n - 1) // 2:
                    ctx.viol("component", inst, ctx.loc(fa), "only %d of the %d pairs of ends of a %s are joined" % (len(pairs), n * (n - 1) // 2, short(k)))
                elif views & {"getBusBreakerView", "getConnectableBus"}:
                    ctx.viol("component", inst, ctx.loc(fa), "the ends of a %s are joined by another bus than the one of its bus view (%s)" % (short(k), ", ".join(sorted(views))))
                for ev in evs:
                    tests = [c for c, po in ev.g if not [x for x in subnodes(c) if x.op == "call" and mname(x.a[0]) in ("getBus", "isConnected")]]
                    if tests:
                        ctx.viol("component", inst + "|guard", ev.loc(), "the ends of a %s are only joined when %s" % (short(k), show(tests[0])[:100]))
            # every concrete kind of equipment with several terminals joins its buses
            for c in sorted(branch_kinds(ctx)):
                inst = "%s joins the ends of a %s" % (short(cid), short(c))
                ctx.inst("component", inst)
                if not (set(p.bases(c)) & ks):
                    ctx.viol("component", inst, ctx.loc(fa), "%s is not taken into account by %s" % (short(c), short(fa)))
            # what joins buses without having terminals of its own must invalidate the components itself
            for c in sorted(ks):
                if I + "Connectable" in p.bases(c):
                    continue
                for f, what in creations(ctx, c):
                    inst = "%s of %s (%s)" % (what, short(c), short(cid))
                    ctx.inst("component", inst)
                    if not invalidates_component(ctx, f, cid, base, what, c):
                        ctx.viol("component", inst, ctx.loc(f), "%s: the components of the other variants or of the working one are not invalidated after the %s of a %s, whose ends they join" % (short(f), what, short(c)))
    ctx.need("component", 7)


def branch_kinds(ctx):
    """Concrete connectables with more than one terminal."""
    p = ctx.p
    out = set()
    for c in p.subclasses(I + "Connectable"):
        if p.classes[c].get("abstract"):
            continue
        if I + "Injection" in p.bases(c):
            continue
        out.add(c)
    return out


def creations(ctx, c):
    """Functions that register or unregister an object of class c in the network."""
    p = ctx.p
    out = []
    for f, r in p.funcs.items():
        if not f.startswith(I) or not r.get("body") or "NetworkIndex" in f or cname(f) == I + "Network":
            continue
        for g in mentions(p)[f]:
            if mname(g) == "checkAndAdd" and ("<" + c in g or "unique_ptr<" + c in g):
                out.append((f, "creation"))
    for f in ctx.methods(c):
        if mname(f) == "remove" and f in p.funcs:
            out.append((f, "removal"))
    return sorted(set(out))


def invalidates_component(ctx, f, cid, base, what, c):
    p = ctx.p
    inv = {m for m in ctx.methods(base) if mname(m) == "invalidate"}

    def pol(h, rec, obj, depth):
        return h not in inv and mname(h) not in ("forEachVariant", "checkAndAdd", "remove")
    e = Engine(p, pol, maxdepth=6, cha=True)
    e.run(f)
    tg = c03.throw_guards(e)
    short_ = cid.split("::")[-1]
    anchor = [ev for ev in e.events if ev.k in ("call", "enter") and (mname(ev.d[0]) == "checkAndAdd" if what == "creation" else mname(ev.d[0]) == "remove" and I in cname(ev.d[0]))]
    base_g = {canon_g(x) for x in (anchor[-1].g if anchor else ())}
    for ev in e.events:
        if ev.k in ("call", "enter") and (ev.d[0] in inv or mname(ev.d[0]) == "invalidate") and lam_cb(ev, "forEachVariant"):
            o = show(ev.d[3]) if isinstance(ev.d[3], Node) else ""
            if short_.lower() not in o.replace("get", "").lower():
                continue
            if len(ev.loops) > 1 or [x for x in ev.g if canon_g(x) not in base_g and (canon(x[0]), not x[1]) not in tg]:
                continue
            return True
    return False


# ---------------------------------------------------------------- the component of a bus

def number_field(n):
    """The per-variant field a component number is kept in: the outermost field of an access."""
    while isinstance(n, Node):
        if n.op == "fld":
            return n.a[1]
        if n.op in ("at", "elem", "un", "op") and n.a and isinstance(n.a[0], Node):
            n = n.a[0]
            continue
        return None
    return None


def check_component_numbers(ctx):
    """A bus reads its component number where the manager of that component stores it."""
    p = ctx.p
    base = I + "AbstractComponentsManager"
    if base not in p.classes:
        return

    def pol(h, rec, obj, depth):
        return base not in [cname(h)] + list(p.bases(cname(h))) and mname(h) not in ("checkValidity", "getNetwork")
    writers = {}
    for m in p.subclasses(base):
        for f in ctx.methods(m):
            if mname(f) == "setComponentNumber" and f in p.funcs:
                e = ctx.summary(f, lambda h, rec, obj, d: False, "c08num", maxdepth=1)
                for ev in e.events:
                    if ev.k == "call" and cname(ev.d[0]) == I + "Bus" and ev.d[4]:
                        writers[m] = ev.d[0]
    for bus in sorted(p.subclasses(I + "Bus")):
        if p.classes[bus].get("abstract"):
            continue
        for f in ctx.methods(bus):
            r = p.funcs.get(f)
            if not r or not r.get("body") or r.get("p"):
                continue
            e = ctx.summary(f, pol, "c08bus", dyn=bus, maxdepth=8)
            for ev in e.events:
                if ev.k != "call" or mname(ev.d[0]) != "getComponent" or cname(ev.d[0]) != base:
                    continue
                man = None
                for n in subnodes(ev.d[3]) if isinstance(ev.d[3], Node) else ():
                    if n.op == "fld":
                        for m in writers:
                            if any(m in x["t"] and x["n"] == n.a[1] for c in p.classes for x in p.classes[c].get("fields", ()) if m in x["t"]):
                                man = m
                    if man:
                        break
                inst = "%s of %s" % (mname(f), short(bus))
                if not man:
                    ctx.undecided("component-number", inst, "components manager not recognised")
                    continue
                ctx.inst("component-number", inst)
                read = number_field(ev.d[4][0]) if ev.d[4] else None
                w = p.find_override(bus, writers[man])
                stored = set()
                if w in p.funcs:
                    ew = ctx.summary(w, pol, "c08bus", dyn=bus, maxdepth=8)
                    for x in ew.events:
                        if x.k == "store":
                            stored.add(number_field(x.d[0]))
                if read is None or not stored:
                    ctx.undecided("component-number", inst, "field of the component number not recognised (%s, %s)" % (read, sorted(map(str, stored))))
                elif read not in stored:
                    ctx.viol("component-number", inst, ctx.loc(f), "reads the number of the component in %s, %s stores it in %s" % (read, short(man), ", ".join(sorted(map(str, stored)))))
    for m in sorted(p.subclasses(base)):
        if p.classes[m].get("abstract"):
            continue
        ctx.inst("component-number", short(m))
        if m not in writers:
            ctx.undecided("component-number", short(m), "where component numbers are stored is not recognised")
        elif sum(1 for x in writers.values() if x == writers[m]) > 1:
            ctx.viol("component-number", short(m), ctx.loc(writers[m]), "two components managers store the component numbers at the same place (%s)" % mname(writers[m]))


def check_for_each_variant(ctx):
    """forEachVariant runs the function once per existing variant, with that variant selected."""
    p = ctx.p
    for f, r in sorted(p.funcs.items()):
        if mname(f) != "forEachVariant" or r.get("c") != I + "VariantManager":
            continue
        e = ctx.summary(f, inline_all, "c08fe", maxdepth=6)
        inst = short(f)
        ctx.inst("each-variant", inst)
        bad = None
        hit = None
        for i, ev in enumerate(e.events):
            if ev.k == "call" and any(isinstance(x, Node) and x.op == "param" for x in [ev.d[3]] + [y for y in ([N("param", r["p"][0]["n"])] if ev.d[0] and "operator()" in str(ev.d[0]) else [])]):
                hit = (i, ev)
                break
        if not hit:
            ctx.undecided("each-variant", inst, "call of the function not recognised")
            continue
        i, ev = hit
        rng = [lp for lp in ev.loops if lp[0] == "range"]
        sel = [x for x in e.events[:i] if x.k == "call" and mname(x.d[0]) == "setVariantIndex" and x.loops == ev.loops and not x.g and rng and any(isinstance(y, Node) and contains(y, N("elem", rng[-1][1])) for y in x.d[4])]
        if not sel:
            bad = "the function is called without its variant being selected"
        if not rng or ev.g:
            bad = "the function is not called for every variant"
        else:
            el = rng[-1][1]
            fld_ = [n for n in subnodes(el) if n.op == "fld" and n.a[0] is THIS]
            if not fld_:
                bad = "the loop is not over the variants of the manager"
        if bad:
            ctx.viol("each-variant", inst, ctx.loc(f), bad)


def check(ctx):
    caches = find_caches(ctx)
    ctx.notes.append("caches: " + ", ".join(sorted("%s.%s filled by %s" % (short(c), f, "/".join(sorted(mname(x) for x in fs))) for (c, f), fs in caches.items())))
    prim = Prim(ctx)
    check_invalidate_complete(ctx, caches)
    check_mutations(ctx, caches, prim)
    check_own_caches(ctx, caches)
    check_reads(ctx, caches)
    check_components(ctx, caches)
    check_for_each_variant(ctx)
    check_component_numbers(ctx)
