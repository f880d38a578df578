"""C03: a getter returns what the matching setter stored, and the setter changes nothing else."""
from common import *

OPAQUE = ("getVariantIndex", "getVariantArraySize", "getNetwork", "getVariantManager", "getVariantManagerHolder")
MUT = {"insert", "erase", "clear", "push_back", "pop_back", "emplace_back", "emplace", "reset", "swap", "assign", "resize", "remove_if"}


def policy(f, rec, obj, depth):
    return mname(f) not in OPAQUE


def subject_classes(ctx):
    p = ctx.p
    for cid in sorted(p.classes):
        if not cid.startswith(I) or cid.startswith(I + "converter::"):
            continue
        s = strip_tpl(cid)
        if s.endswith(("Adder", "Builder")) or is_adder(p, cid):
            continue
        yield cid


def is_adder(p, cid):
    return any(strip_tpl(b).endswith(("Adder", "Builder")) for b in p.bases(cid))


def getters(ctx, cid, nm):
    out = []
    for pre in ("get", "is", "has", ""):
        gn = pre + nm[3:] if pre else nm[3].lower() + nm[4:]
        out += [g for g in ctx.method(cid, gn) if g in ctx.p.funcs and not ctx.p.funcs[g]["p"]]
    # constant and mutable forms are one accessor (C20 decides that they agree): prefer the constant one
    out.sort(key=lambda g: (not g.endswith(" const"), g))
    return out


def throw_guards(e):
    out = set()
    for ev in e.events:
        if ev.k == "throw":
            for c, pol in ev.g:
                out.add((canon(c), pol))
    return out


def eq_guard(c, a, b):
    return c.op == "op" and c.a[0] == "==" and {strip_bool(c.a[1]), strip_bool(c.a[2])} == {a, b}


def leaves(v, conds):
    if v.op == "ite":
        yield from leaves(v.a[1], conds + [(v.a[0], True)])
        yield from leaves(v.a[2], conds + [(v.a[0], False)])
    else:
        yield v, conds


def flat(conds):
    """Conditions with conjunctions and negations opened."""
    out = []
    for c, pol in conds:
        st = [(c, pol)]
        while st:
            x, q = st.pop()
            if x.op == "un" and x.a[0] == "!":
                st.append((x.a[1], not q))
            elif x.op == "op" and x.a[0] == "&&" and q or x.op == "op" and x.a[0] == "||" and not q:
                st.append((x.a[1], q))
                st.append((x.a[2], q))
            else:
                out.append((x, q))
    return out


def default_terminal(v, conds, P):
    if any(x is P for x in subnodes(v)):
        return False
    t = v.op == "at" and v.a[0].op == "fld" and v.a[0].a[1] == "m_terminals" or v.op == "call" and mname(v.a[0]) == "getTerminal"
    return t and any(strip_bool(c) is P and not q for c, q in flat(conds))


def strip_copy(v):
    """A copy, a reference or an optional of the value is the value."""
    while True:
        if v.op == "obj" and len(v.a[2]) == 1:
            v = v.a[2][0]
        elif v.op == "call" and mname(v.a[0]) in ("ref", "cref", "move", "forward", "make_optional") and len(v.a[2]) == 1:
            v = v.a[2][0]
        else:
            return v


def check(ctx):
    p = ctx.p
    for cid in subject_classes(ctx):
        byname = {}
        for m in p.classes[cid]["methods"]:
            byname.setdefault(mname(m["f"]), []).append(m)
        for nm in sorted(byname):
            if not nm.startswith("set") or len(nm) < 4 or not nm[3].isupper():
                continue
            for m in byname[nm]:
                f = m["f"]
                if f not in p.funcs or m["acc"] != "public":
                    continue
                r = p.funcs[f]
                if len(r["p"]) != 1:
                    continue
                gs = getters(ctx, cid, nm)
                if gs:
                    check_pair(ctx, cid, f, gs[0])
    check_property(ctx)
    check_discrete(ctx)
    check_limits_holder(ctx)
    check_slack(ctx)
    ctx.need("set-get", 150)
    ctx.need("nothing-else", 140)


def check_pair(ctx, cid, f, g):
    p = ctx.p
    name = "%s::%s" % (short(cid), mname(f))
    es = ctx.summary(f, policy, "c03", dyn=cid)
    eg = ctx.summary(g, policy, "c03", dyn=cid)
    ctx.inst("set-get", name)
    if not es.rets:
        return  # every path refuses: nothing is stored, see the throw itself
    memo = {}
    P = N("param", p.funcs[f]["p"][0]["n"])
    rv = eg.retvalue()
    if rv is None:
        ctx.undecided("set-get", name, "the getter always throws")
        return
    G = canon(strip_copy(rv), memo)
    stores = [(ev, canon(ev.d[0], memo), canon(strip_copy(ev.d[1]), memo)) for ev in es.events if ev.k == "store"]
    # values passed on to every part and read back from one of them
    if any(x.op == "call" and mname(x.a[0]) == mname(g) for x in subnodes(G)):
        check_propagated(ctx, name, f, es, stores, P, mname(f))
        return
    if not is_location(G):
        parts = [x for x in subnodes(G) if is_location(x)]
        hit = [s for s in stores if s[1] in parts]
        if not hit:
            direct = [s for s in stores if s[2] is P]
            if direct and G.op in ("ite", "call", "un", "op") and any(contains(G, s[1]) for s in direct):
                ctx.undecided("set-get", name, "the getter computes " + show(G)[:80])
                return
            ctx.viol("set-get", name, ctx.loc(f), "%s does not set what %s returns (%s)" % (name, mname(g), show(G)[:100]))
            return
        # e.g. found(container, key): the setter sets the key under which the getter looks the value up
        bad = [s for s in hit if s[2] is not P]
        for s in bad:
            ctx.viol("set-get", name, s[0].loc(), "%s stores %s instead of the given value" % (name, show(s[2])[:80]))
        others(ctx, name, f, es, stores, {s[1] for s in hit}, P)
        return
    mine = [s for s in stores if s[1] is G]
    if not mine:
        w = [s for s in stores if s[2] is P]
        ctx.viol("set-get", name, w[0][0].loc() if w else ctx.loc(f), "%s stores the given value in %s, but %s returns %s" % (
            name, show(w[0][1])[:80] if w else "nothing", mname(g), show(G)[:80]))
        return
    tg = throw_guards(es)
    bad = None
    for ev, l, v in mine:
        conds = [(canon(c, memo), q) for c, q in ev.g if c.op != "imp"]
        for lv, cs in leaves(v, conds):
            if strip_copy(lv) is P or lv is G or default_terminal(lv, cs, P):
                continue
            bad = (ev, "%s stores %s instead of the given value" % (name, show(lv)[:80]))
    if bad:
        ctx.viol("set-get", name, bad[0].loc(), bad[1])
    else:
        # on every normal return the location holds the value
        full = False
        for ev, l, v in mine:
            rest = [(c, q) for c, q in flat([(canon(c, memo), q) for c, q in ev.g if c.op != "imp"]) if (c, not q) not in tg and not neg_of_throw(c, q, es, memo)]
            rest = [(c, q) for c, q in rest if not (eq_guard(c, G, P) and not q)]
            if not rest and not ev.loops:
                full = True
        if not full:
            for st, _ in es.rets:
                heap = {canon(k, memo): canon(strip_copy(x), memo) for k, x in st.heap.items()}
                v = heap.get(G, G)
                g0 = [(canon(c, memo), q) for c, q in st.g if c.op != "imp"]
                for lv, cs in leaves(v, g0):
                    lv = strip_copy(lv)
                    if lv is P or default_terminal(lv, cs, P):
                        continue
                    fc = flat(cs)
                    if lv is G and any(eq_guard(c, G, P) and q for c, q in fc):
                        continue
                    if lv is G and any((strip_bool(c) is P and q is False) for c, q in fc) and len(mine) > 1:
                        continue
                    why = [c for c in fc if (c[0], not c[1]) not in tg]
                    ctx.viol("set-get", name + "/path", mine[0][0].loc(), "%s returns normally without storing the value%s" % (
                        name, " when " + " and ".join(("" if q else "not ") + show(c)[:60] for c, q in why[-2:]) if why else ""))
                    break
    others(ctx, name, f, es, stores, {G}, P)


def neg_of_throw(c, q, es, memo):
    """The guard is (part of) the complement of the condition of a throw."""
    for ev in es.events:
        if ev.k == "throw":
            for tc, tq in flat([(canon(x, memo), y) for x, y in ev.g]):
                if tc is c and tq is not q:
                    return True
                if contains(c, tc) and c.op in ("op", "un", "ite"):
                    return True
    return False


def is_location(n):
    if n.op == "fld":
        return root(n) is THIS or root(n).op in ("call", "param", "global") or n.a[0].op in ("fld", "at", "elem")
    if n.op == "at":
        return is_location(n.a[0])
    return n.op == "global"


def external_root(n):
    """The stored location is part of the object, of an argument or of a global: visible afterwards."""
    r = root(n)
    if r.op in ("local", "obj", "new", "static", "lv", "phi", "unk", "list", "pair"):
        return False
    return True


# (class, setter): attributes that follow, by their documentation
FOLLOWS = {("TapChanger", "setLowTapPosition"): {"m_tapPosition"}}


def others(ctx, name, f, es, stores, mine, P):
    ctx.inst("nothing-else", name)
    follows = FOLLOWS.get((strip_tpl(short(ctx.p.funcs[f].get("c", ""))), mname(f)), ())
    for ev, l, v in stores:
        if l in mine or not external_root(l) or v is l:
            continue
        if is_cache(l):
            continue
        if any(x.op == "fld" and x.a[0] is THIS and x.a[1] in follows for x in subnodes(l)):
            continue
        ctx.viol("nothing-else", name, ev.loc(), "%s also changes %s (to %s)" % (name, show(l)[:80], show(v)[:60]))
    for ev in es.events:
        if ev.k != "call" or ev.d[3] is None:
            continue
        o = canon(ev.d[3])
        if ev.d[1] in MUT and external_root(o) and root(o) is THIS and o not in mine and o.op in ("fld", "at") and not is_cache(o) and not any(contains(x, o) for x in mine):
            ctx.viol("nothing-else", name, ev.loc(), "%s also calls %s on %s" % (name, ev.d[1], show(o)[:80]))
        elif ev.d[1].startswith("set") and len(ev.d[1]) > 3 and ev.d[1][3].isupper() and root(o) is THIS and ev.d[1] != mname(f) and not is_alias(ev, mine):
            ctx.viol("nothing-else", name, ev.loc(), "%s also calls %s" % (name, ev.d[1]))


def is_alias(ev, mine):
    return False


def is_cache(l):
    return any(x.op == "fld" and ("cache" in x.a[1].lower() or "calculated" in x.a[1].lower()) for x in subnodes(l))


def check_propagated(ctx, name, f, es, stores, P, setter):
    hit = [s for s in stores if any(x.op == "elem" for x in subnodes(s[1]))]
    calls = [ev for ev in es.events if ev.k in ("call", "enter") and ev.d[1] == setter and ev.d[3] is not None and any(x.op == "elem" for x in subnodes(ev.d[3]))]
    if not hit and not calls:
        ctx.viol("set-get", name, ctx.loc(f), "%s does not pass the value on to every part" % name)
    for ev, l, v in hit:
        if v is not P:
            ctx.viol("set-get", name, ev.loc(), "%s stores %s instead of the given value" % (name, show(v)[:80]))
    for ev in calls:
        if ev.d[4] and canon(ev.d[4][0]) is not P:
            ctx.viol("set-get", name, ev.loc(), "%s passes on %s instead of the given value" % (name, show(ev.d[4][0])[:80]))


def fn(ctx, cid, name, n, const=None):
    fs = [f for f in ctx.methods(cid) if mname(f) == name and f in ctx.p.funcs and len(ctx.p.funcs[f]["p"]) == n and (const is None or f.endswith(" const") == const)]
    if not fs:
        raise AnalysisError("anchor %s::%s/%d not found" % (short(cid), name, n))
    return fs[0]


def check_property(ctx):
    p = ctx.p
    c = I + "Identifiable"
    f = fn(ctx, c, "setProperty", 2)
    K, V = (N("param", x["n"]) for x in p.funcs[f]["p"])
    es = ctx.summary(f, policy, "c03")
    ctx.inst("keyed", "Identifiable::setProperty")
    st = [ev for ev in es.events if ev.k == "store" and external_root(ev.d[0])]
    ins = [ev for ev in es.events if ev.k == "call" and ev.d[1] in ("insert", "emplace", "insert_or_assign", "try_emplace")]
    ok = [ev for ev in st if ev.d[0].op in ("at", "found", "fld") and contains(ev.d[0], K) and canon(strip_copy(ev.d[1])) is V]
    if not ok:
        ctx.viol("keyed", "Identifiable::setProperty", ctx.loc(f), "setProperty does not store the value under the given key" + (" when the key exists" if ins else ""))
    for ev in ok:
        extra = [c for c in flat([(canon(c), q) for c, q in ev.g if c.op != "imp"]) if not contains(c[0], K) and not contains(c[0], V)]
        if extra and not ins:
            ctx.viol("keyed", "Identifiable::setProperty", ev.loc(), "setProperty stores the value only when %s%s" % ("" if extra[0][1] else "not ", show(extra[0][0])[:80]))
    store = root_field(ok[0].d[0]) if ok else None
    for g in [x for x in ctx.methods(c) if mname(x) in ("getProperty", "getOptionalProperty", "hasProperty") and x in p.funcs and p.funcs[x]["p"]]:
        eg = ctx.summary(g, policy, "c03")
        k = N("param", p.funcs[g]["p"][0]["n"])
        ctx.inst("keyed", short(g) + "/%d" % len(p.funcs[g]["p"]))
        rv = eg.retvalue()
        nodes = subnodes(rv) if rv is not None else set()
        ks = [x for x in nodes if (x.op == "found" and x.a[1] is k or x.op == "at" and x.a[1] is k or x.op == "call" and k in x.a[2]) and (store is None or contains(x, store))]
        if rv is not None and not ks:
            ctx.viol("keyed", short(g), ctx.loc(g), "%s does not look the given key up in the properties" % short(g))


def root_field(n):
    while n.op in ("at", "found", "elem") or n.op == "fld" and n.a[1] in ("second", "first") or n.op == "call" and n.a[1] is not None:
        n = n.a[1] if n.op == "call" else n.a[0]
    return n


def check_discrete(ctx):
    """The value of a discrete measurement is stored together with the type of the overload used, which its reader checks."""
    p = ctx.p
    c = I + "extensions::iidm::DiscreteMeasurement"
    if c not in p.classes:
        raise AnalysisError("DiscreteMeasurement vanished")
    want = {"bool": "BOOLEAN", "int": "INT", "const char *": "STRING"}
    cells = {}
    for f in ctx.methods(c):
        if mname(f) != "setValue" or f not in p.funcs:
            continue
        t = p.funcs[f]["p"][0]["t"]
        k = want.get(t, "STRING" if "basic_string" in t else None)
        if k is None:
            continue
        es = ctx.summary(f, policy, "c03")
        P = N("param", p.funcs[f]["p"][0]["n"])
        name = "DiscreteMeasurement::setValue(%s)" % k
        ctx.inst("typed-value", name)
        vs = [ev for ev in es.events if ev.k == "store" and root(ev.d[0]) is THIS]
        val = [ev for ev in vs if strip_copy(ev.d[1]) is P or contains(ev.d[1], P)]
        typ = [ev for ev in vs if ev.d[1].op == "enum"]
        if len(val) != 1 or len(typ) != 1 or typ[0].d[1].a[1] != k:
            ctx.viol("typed-value", name, ctx.loc(f), "%s does not store the value together with the type %s" % (name, k))
        else:
            cells[k] = (val[0].d[0], typ[0].d[0])
    for nm, k in (("getValueAsString", "STRING"), ("getValueAsInt", "INT"), ("getValueAsBoolean", "BOOLEAN")):
        for g in ctx.method(c, nm):
            if g not in p.funcs or k not in cells:
                continue
            eg = ctx.summary(g, policy, "c03")
            ctx.inst("typed-value", "DiscreteMeasurement::" + nm)
            rv = eg.retvalue()
            if rv is None or not contains(rv, cells[k][0]):
                ctx.viol("typed-value", nm, ctx.loc(g), "%s does not return the value that was set" % nm)
            tg = [ev for ev in eg.events if ev.k == "throw"]
            ok = any(c.op == "op" and c.a[0] == "==" and cells[k][1] in c.a[1:] and any(x.op == "enum" and x.a[1] == k for x in c.a[1:]) and not q for ev in tg for c, q in ev.g)
            if not ok:
                ctx.viol("typed-value", nm + "/type", ctx.loc(g), "%s does not refuse a value that is not of type %s" % (nm, k))
    ctx.need("typed-value", 6)


def check_limits_holder(ctx):
    p = ctx.p
    c = I + "OperationalLimitsHolder"
    f = fn(ctx, c, "setOperationalLimits", 2)
    T, L = (N("param", x["n"]) for x in p.funcs[f]["p"])
    es = ctx.summary(f, policy, "c03")
    ctx.inst("keyed", "OperationalLimitsHolder::setOperationalLimits")
    st = [ev for ev in es.events if ev.k == "store" and contains(ev.d[0], T) and contains(ev.d[1], L)]
    em = [ev for ev in es.events if ev.k == "call" and ev.d[1] in ("emplace", "insert", "insert_or_assign") and any(contains(a, T) for a in ev.d[4]) and any(contains(a, L) for a in ev.d[4])]
    if not st and not any(ev.d[1] == "insert_or_assign" for ev in em):
        erased = [ev for ev in es.events if ev.k == "call" and ev.d[1] in ("erase", "clear")]
        if not (em and erased):
            ctx.viol("keyed", "OperationalLimitsHolder::setOperationalLimits", ctx.loc(f), "setOperationalLimits does not make the given limits those of the given type")
    for nm, k in (("getActivePowerLimits", "ACTIVE_POWER"), ("getApparentPowerLimits", "APPARENT_POWER"), ("getCurrentLimits", "CURRENT")):
        for g in [x for x in ctx.methods(c) if mname(x) == nm and x in p.funcs and not p.funcs[x]["p"]]:
            eg = ctx.summary(g, lambda f, r, o, d: mname(f) not in ("getOperationalLimits", "getLoadingLimits"), "c03l")
            ctx.inst("keyed", short(g))
            en = {x.a[1] for ev in eg.events for d in ev.d for y in (d if isinstance(d, tuple) else (d,)) if isinstance(y, Node) for x in subnodes(y) if x.op == "enum" and x.a[0] == I + "LimitType"}
            if en and en != {k}:
                ctx.viol("keyed", short(g), ctx.loc(g), "%s reads the limits of type %s" % (short(g), "/".join(sorted(en))))
            elif not en:
                ctx.undecided("keyed", short(g), "limit type not recognised")
    for nm, k in (("newActivePowerLimits", "ACTIVE_POWER"),):
        pass


def check_slack(ctx):
    p = ctx.p
    c = I + "extensions::SlackTerminal"
    if c not in p.classes:
        return
    g = [x for x in ctx.methods(c) if mname(x) == "getTerminal" and x in p.funcs]
    G = None
    for x in g:
        rv = ctx.summary(x, policy, "c03").retvalue()
        G = canon(strip_copy(rv)) if rv is not None else None
    for f in [x for x in ctx.methods(c) if mname(x) == "setTerminal" and x in p.funcs]:
        es = ctx.summary(f, policy, "c03")
        P = N("param", p.funcs[f]["p"][0]["n"])
        ctx.inst("keyed", "SlackTerminal::setTerminal")
        st = [ev for ev in es.events if ev.k == "store" and canon(ev.d[0]) is G]
        if not st or any(canon(strip_copy(ev.d[1])) is not P for ev in st):
            ctx.viol("keyed", "SlackTerminal::setTerminal", ctx.loc(f), "setTerminal does not store the given terminal where getTerminal reads it")
