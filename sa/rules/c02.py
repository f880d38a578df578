"""C02: per-variant attributes are read and written in the working variant only; the selection of a variant is exact."""
from common import *
from rules import c01, c03

LIFE = set(c01.OPS)
INDEXERS = {"getVariantIndex"}
WHOLE_READ = {"front", "back", "data"}
WHOLE_WRITE = {"assign", "clear", "push_back", "pop_back", "emplace_back", "erase", "insert", "resize", "swap"}


def policy(f, rec, obj, depth):
    n = mname(f)
    if n in c01.BYNAME_NOT_INLINED:
        return False
    return True


def follows(p, f):
    return c03.FOLLOWS.get((strip_tpl(short(p.funcs[f].get("c", ""))), mname(f)), ())


def check(ctx):
    vf = c01.variant_fields(ctx)
    check_indexing(ctx, vf)
    check_contexts(ctx)
    check_guard(ctx)
    check_manager(ctx)
    check_delegation(ctx)
    ctx.need("index", 140)
    ctx.need("selection", 11)
    ctx.need("delegation", 3)


def local_policy(cid, p):
    """Inline only helpers of the same class (not part of its public interface), getters of the index excluded."""
    acc = {m["f"]: m["acc"] for m in p.classes[cid]["methods"]}

    def pol(f, rec, obj, depth):
        if mname(f) in c01.BYNAME_NOT_INLINED:
            return False
        if f in acc:
            return obj is THIS
        # free helper functions
        return rec is not None and not rec.get("c")
    return pol


def index_class(i, P):
    """'ok' when the index is the working variant's, otherwise a description; None when it cannot be told."""
    if i.op == "call" and mname(i.a[0]) in INDEXERS and not i.a[2]:
        return "ok"
    if i.op in ("phi", "lv", "unk", "elem"):
        if any(x.op == "call" and mname(x.a[0]) in INDEXERS for x in subnodes(i)):
            return None if i.op != "unk" else None
        return show(i)
    if i.op == "ite":
        a, b = index_class(i.a[1], P), index_class(i.a[2], P)
        return a if a != "ok" else b
    if i.op == "param":
        return "param"
    return show(i)


def check_indexing(ctx, vf):
    p = ctx.p
    by = {}
    for (c, f) in vf:
        by.setdefault(c, []).append(f)
    for cid in sorted(by):
        users = [cid] + sorted(s for s in p.subclasses(cid) if s != cid)
        for u in users:
            for m in p.classes[u]["methods"]:
                f = m["f"]
                r = p.funcs.get(f)
                n = mname(f)
                if not r or n in LIFE or r.get("kind") in ("ctor", "dtor"):
                    continue
                e = ctx.summary(f, local_policy(u, p), "c02" + u, maxdepth=4)
                nonpub = m["acc"] != "public"
                arr = {}
                for fl in by[cid]:
                    F = N("fld", THIS, fl)
                    arr[F] = fl
                    t = [x["t"] for x in p.classes[cid]["fields"] if x["n"] == fl][0]
                    if t.startswith(I + "VariantArray<"):
                        continue
                nodes = set()
                for ev in e.events:
                    for d in ev.d:
                        if isinstance(d, Node):
                            subnodes(d, nodes)
                        elif isinstance(d, tuple):
                            for y in d:
                                if isinstance(y, Node):
                                    subnodes(y, nodes)
                    for c, _ in ev.g:
                        subnodes(c, nodes)
                rv = e.retvalue()
                if rv is not None:
                    subnodes(rv, nodes)
                line = ctx.loc(f)
                for x in nodes:
                    if x.op == "at" and x.a[0] in arr:
                        inst = "%s.%s" % (short(f), arr[x.a[0]])
                        ctx.inst("index", inst)
                        k = index_class(x.a[1], None)
                        if arr[x.a[0]] in follows(p, f) and any(ev.k == "store" and ev.d[0] is x for ev in e.events):
                            ctx.viol("index", inst, line, "%s changes an attribute that all the variants share, and moves %s along in one variant only" % (short(f), arr[x.a[0]]))
                            continue
                        if k == "param" and (nonpub or cid.startswith(I + "VariantArray<")):
                            continue  # decided at the callers, where the helper is inlined; the array's copy is lifecycle (C01)
                        if k is None:
                            ctx.undecided("index", inst, "index " + show(x.a[1])[:80])
                        elif k != "ok":
                            ctx.viol("index", inst, line, "%s accesses slot %s of the per-variant attribute %s instead of the working variant's slot" % (
                                short(f), "named by a caller's argument" if k == "param" else k[:80], arr[x.a[0]]))
                    elif x.op == "elem" and x.a[0] in arr:
                        inst = "%s.%s/elem" % (short(f), arr[x.a[0]])
                        ctx.inst("index", inst)
                        st = [ev for ev in e.events if ev.k == "store" and ev.d[0] is x]
                        if st and arr[x.a[0]] in follows(p, f):
                            continue    # it follows an attribute that all the variants share
                        if st:
                            ctx.viol("index", inst, st[0].loc(), "%s writes the per-variant attribute %s in every variant, not in the working variant only" % (short(f), arr[x.a[0]]))
                        elif rv is not None and contains(rv, x):
                            ctx.viol("index", inst, line, "%s combines the values of %s over all variants, not the working variant's" % (short(f), arr[x.a[0]]))
                    elif x.op == "call" and x.a[1] in arr and mname(x.a[0]) in WHOLE_READ:
                        inst = "%s.%s/%s" % (short(f), arr[x.a[1]], mname(x.a[0]))
                        ctx.viol("index", inst, line, "%s reads %s() of the per-variant attribute %s, whatever the working variant" % (short(f), mname(x.a[0]), arr[x.a[1]]))
                for ev in e.events:
                    if ev.k == "store" and ev.d[0] in arr:
                        ctx.viol("index", "%s.%s/store" % (short(f), arr[ev.d[0]]), ev.loc(), "%s replaces the values of %s in every variant" % (short(f), arr[ev.d[0]]))
                    if ev.k == "call" and ev.d[3] in arr and ev.d[1] in WHOLE_WRITE and not cid.startswith(I + "VariantArray<"):
                        ctx.viol("index", "%s.%s/%s" % (short(f), arr[ev.d[3]], ev.d[1]), ev.loc(), "%s calls %s on the per-variant attribute %s outside the variant lifecycle" % (short(f), ev.d[1], arr[ev.d[3]]))
                    if ev.k == "call" and ev.d[1] in ("fill", "fill_n", "transform", "copy", "replace") and ev.d[0].startswith("std::") and any(contains(a, F) for a in ev.d[4] for F in arr):
                        ctx.viol("index", "%s/%s" % (short(f), ev.d[1]), ev.loc(), "%s writes a per-variant attribute in several variants through std::%s" % (short(f), ev.d[1]))


def one(ctx, cid, name, nargs=None):
    fs = [f for f in ctx.methods(cid) if mname(f) == name and f in ctx.p.funcs and (nargs is None or len(ctx.p.funcs[f]["p"]) == nargs)]
    if not fs:
        raise AnalysisError("anchor %s::%s not found" % (short(cid), name))
    return fs[0]


def stores_of(e, pred):
    return [ev for ev in e.events if ev.k == "store" and pred(ev.d[0])]


def is_cell(n):
    return n.op == "global" or (n.op == "fld" and n.a[0] is THIS)


def check_contexts(ctx):
    p = ctx.p
    base = I + "VariantContext"
    subs = [c for c in p.subclasses(base) if c != base and not p.classes[c].get("abstract")]
    if len(subs) < 2:
        raise AnalysisError("variant contexts vanished")
    for c in sorted(subs):
        # the cell that holds the selection: what the index getter returns
        g = one(ctx, c, "getVariantIndex")
        e = ctx.summary(g, policy, "c02c")
        rv = e.retvalue()
        ctx.inst("selection", short(g))
        if rv is None or not is_cell(rv):
            ctx.viol("selection", short(g), ctx.loc(g), "%s does not return the selected index alone: %s" % (short(g), show(rv) if rv else "nothing"))
            continue
        cell = rv
        thr = [ev for ev in e.events if ev.k == "throw"]
        if not any(any(not pol and strip_bool(cd) is cell or pol and cd.op == "op" and NULL in cd.a for cd, pol in t.g) for t in thr):
            ctx.viol("selection", short(g) + "/unset", ctx.loc(g), "%s does not refuse when no variant is selected" % short(g))
        f = one(ctx, c, "setVariantIndex", 1)
        ctx.inst("selection", short(f))
        e = ctx.summary(f, policy, "c02c")
        P = N("param", p.funcs[f]["p"][0]["n"])
        st = stores_of(e, is_cell)
        if len(st) != 1 or st[0].d[0] is not cell or st[0].d[1] is not P or [x for x in st[0].g if x[0].op != "imp"]:
            ctx.viol("selection", short(f), ctx.loc(f), "%s does not store the given index, unconditionally, as the selection" % short(f))
        f = one(ctx, c, "resetIfVariantIndexIs", 1)
        ctx.inst("selection", short(f))
        e = ctx.summary(f, policy, "c02c")
        P = N("param", p.funcs[f]["p"][0]["n"])
        st = [ev for ev in stores_of(e, is_cell)]
        eq = {N("op", "==", cell, P), N("op", "==", P, cell)}
        ok = bool(st)
        for ev in st:
            if ev.d[0] is not cell or ev.d[1].op == "param":
                ok = False
            if not any(pol and cd in eq for cd, pol in ev.g):
                ok = False
            for cd, pol in ev.g:
                if not (pol and (cd in eq or strip_bool(cd) is cell) or cd.op == "imp"):
                    ok = False
        if not ok:
            ctx.viol("selection", short(f), ctx.loc(f), "%s does not clear the selection exactly when it designates the given index" % short(f))
        f = one(ctx, c, "isIndexSet", 0)
        ctx.inst("selection", short(f))
        e = ctx.summary(f, policy, "c02c")
        if strip_bool(e.retvalue()) is not cell:
            ctx.viol("selection", short(f), ctx.loc(f), "%s does not tell whether a variant is selected" % short(f))
        if "ThreadLocal" in c:
            ctx.inst("selection", short(c) + "/thread_local")
            if cell.op != "global" or not p.globals.get(cell.a[0], {}).get("tls"):
                ctx.viol("selection", short(c) + "/thread_local", ctx.loc(g), "the selection of %s is not local to the thread" % short(c))


def check_guard(ctx):
    p = ctx.p
    c = I + "VariantContextGuard"
    if c not in p.classes:
        raise AnalysisError("VariantContextGuard vanished")
    ct = [f for f in ctx.methods(c) if p.funcs.get(f, {}).get("kind") == "ctor" and len(p.funcs[f]["p"]) == 1 and "VariantContextGuard" not in p.funcs[f]["p"][0]["t"]]
    dt = [f for f in ctx.methods(c) if p.funcs.get(f, {}).get("kind") == "dtor"]
    if not ct or not dt:
        raise AnalysisError("VariantContextGuard constructor/destructor vanished")
    P = N("param", p.funcs[ct[0]]["p"][0]["n"])
    e = ctx.summary(ct[0], policy, "c02c")
    ctxf = [ev.d[0] for ev in e.events if ev.k == "store" and ev.d[1] is P]
    idxf = [ev.d[0] for ev in e.events if ev.k == "store" and ev.d[1].op == "call" and mname(ev.d[1].a[0]) in INDEXERS and ev.d[1].a[1] is P]
    ctx.inst("selection", "VariantContextGuard/save")
    if not ctxf or not idxf:
        ctx.viol("selection", "VariantContextGuard/save", ctx.loc(ct[0]), "the guard does not save the context and its selected index")
        return
    e = ctx.summary(dt[0], policy, "c02c")
    ctx.inst("selection", "VariantContextGuard/restore")
    rs = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "setVariantIndex"]
    if not any(ev.d[3] is ctxf[0] and ev.d[4] and ev.d[4][0] is idxf[0] and not ev.g for ev in rs):
        ctx.viol("selection", "VariantContextGuard/restore", ctx.loc(dt[0]), "the guard's destructor does not restore the saved selection on every path")


def check_manager(ctx):
    p = ctx.p
    M = I + "VariantManager"
    # selecting
    f = one(ctx, M, "setWorkingVariant", 1)
    P = N("param", p.funcs[f]["p"][0]["n"])
    e = ctx.summary(f, lambda *a: True, "c02m")
    ctx.inst("manager", "setWorkingVariant")
    calls = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "setVariantIndex"]
    if not calls or any(not is_index_of(ev.d[4][0], P) for ev in calls):
        ctx.viol("manager", "setWorkingVariant", ctx.loc(f), "setWorkingVariant does not select the index registered for the given identifier")
    else:
        uncond = [c for ev in calls for c in ev.g if not lookup_guard(c, P)]
        if len(calls) == 1 and uncond:
            ctx.viol("manager", "setWorkingVariant", calls[0].loc(), "setWorkingVariant selects the variant only when %s%s" % ("" if uncond[0][1] else "not ", show(uncond[0][0])))
    # reading back the identifier
    f = one(ctx, M, "getWorkingVariantId", 0)
    e = ctx.summary(f, lambda *a: True, "c02m")
    ctx.inst("manager", "getWorkingVariantId")
    rv = e.retvalue()
    ok = rv is not None and any(x.op == "op" and x.a[0] == "==" and any(y.op == "call" and mname(y.a[0]) in INDEXERS for y in x.a[1:]) and any(y.op == "fld" and y.a[1] == "second" for y in x.a[1:]) for x in all_conditions(e, rv))
    if not ok or not any(x.op == "fld" and x.a[1] == "first" for x in subnodes(rv)):
        ctx.viol("manager", "getWorkingVariantId", ctx.loc(f), "getWorkingVariantId does not return the identifier whose index is the selected one")
    # each variant in turn, selection restored
    f = one(ctx, M, "forEachVariant", 1)
    P = N("param", p.funcs[f]["p"][0]["n"])
    e = ctx.summary(f, lambda *a: True, "c02m")
    ctx.inst("manager", "forEachVariant")
    sel = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "setVariantIndex" and ev.loops]
    run = [ev for ev in e.events if ev.k in ("call", "enter") and (ev.d[3] is P or P in ev.d[4]) and ev.loops]
    grd = [ev for ev in e.events if ev.k == "ctor" and "VariantContextGuard" in str(ev.d[1])]
    if not sel or not run:
        ctx.viol("manager", "forEachVariant", ctx.loc(f), "forEachVariant does not select each variant and call the function in it")
    else:
        if sel[0].seq > run[0].seq:
            ctx.viol("manager", "forEachVariant/order", run[0].loc(), "forEachVariant calls the function before selecting the variant")
        a = sel[0].d[4][0]
        if not (root(a).op == "fld" or any(x.op == "elem" for x in subnodes(a))):
            ctx.viol("manager", "forEachVariant/index", sel[0].loc(), "forEachVariant selects %s, not the index of each registered variant" % show(a))
        for ev in sel + run:
            extra = [c for c in ev.g if c[0].op not in ("imp", "lv", "unk") and not any(x.op in ("lv", "unk") for x in subnodes(c[0]))]
            if extra:
                ctx.viol("manager", "forEachVariant/guard", ev.loc(), "forEachVariant skips variants when %s%s" % ("not " if extra[0][1] else "", show(extra[0][0])))
        if not grd or grd[0].seq > sel[0].seq:
            saved = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "setVariantIndex" and not ev.loops and ev.seq > run[0].seq]
            if not saved:
                ctx.viol("manager", "forEachVariant/restore", ctx.loc(f), "forEachVariant does not restore the selection")
    # removing the selected variant
    f = one(ctx, M, "removeVariant", 1)
    P = N("param", p.funcs[f]["p"][0]["n"])
    e = ctx.summary(f, lambda *a: True, "c02m")
    ctx.inst("manager", "removeVariant")
    rs = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "resetIfVariantIndexIs"]
    if not rs:
        ctx.viol("manager", "removeVariant", ctx.loc(f), "removing a variant does not clear a selection that designates it")
    for ev in rs:
        if not is_index_of(ev.d[4][0], P):
            ctx.viol("manager", "removeVariant/index", ev.loc(), "removing a variant clears the selection of %s, not of the removed variant" % show(ev.d[4][0]))
        extra = [c for c in ev.g if not lookup_guard(c, P) and not any(x.op in ("lv", "unk", "phi") for x in subnodes(c[0]))]
        if extra and len(rs) == 1:
            ctx.viol("manager", "removeVariant/guard", ev.loc(), "removing a variant clears the selection only when %s%s" % ("" if extra[0][1] else "not ", show(extra[0][0])))
    # identifier lookup
    f = one(ctx, M, "getVariantIndex", 1)
    P = N("param", p.funcs[f]["p"][0]["n"])
    e = ctx.summary(f, lambda *a: True, "c02m")
    ctx.inst("manager", "getVariantIndex")
    if not is_index_of(e.retvalue(), P):
        ctx.viol("manager", "getVariantIndex", ctx.loc(f), "the index of a variant is not the one registered for its identifier")
    # switching the access mode carries the selection over
    f = one(ctx, M, "allowVariantMultiThreadAccess", 1)
    P = N("param", p.funcs[f]["p"][0]["n"])
    e = ctx.summary(f, lambda *a: True, "c02m")
    multi = [ev for ev in e.events if ev.k == "ctor" and ev.d[1] in (I + "ThreadLocalMultipleVariantContext",) or ev.k == "ctor" and short(str(ev.d[0])).startswith("ThreadLocalMultipleVariantContext")]
    mono = [ev for ev in e.events if ev.k == "ctor" and short(str(ev.d[0])).startswith("MultipleVariantContext")]
    ctx.inst("manager", "allowVariantMultiThreadAccess")
    if not multi or not mono:
        ctx.viol("manager", "allowVariantMultiThreadAccess", ctx.loc(f), "the access mode does not install the context of each mode")
    for evs, want in ((multi, True), (mono, False)):
        for ev in evs:
            if not any(c is P and pol is want for c, pol in ev.g) and not any(c.op == "un" and c.a[0] == "!" and c.a[1] is P and pol is not want for c, pol in ev.g):
                ctx.viol("manager", "allowVariantMultiThreadAccess/mode", ev.loc(), "%s is installed without multi-thread access being %s" % (short(str(ev.d[0])).split("::")[0], "allowed" if want else "refused"))
    car = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "setVariantIndex" or ev.k == "ctor" and short(str(ev.d[0])).startswith("MultipleVariantContext") and ev.d[3]]
    carried = [ev for ev in car if any(x.op == "call" and mname(x.a[0]) in INDEXERS for a in (ev.d[4] if ev.k != "ctor" else ev.d[3]) for x in subnodes(a))]
    for want, nm in ((True, "thread-local"), (False, "shared")):
        if not any(any(c is P and pol is want for c, pol in ev.g) for ev in carried):
            ctx.viol("manager", "allowVariantMultiThreadAccess/carry-" + nm, ctx.loc(f), "switching to the %s selection loses the current selection" % nm)
    q = one(ctx, M, "isVariantMultiThreadAccessAllowed", 0)
    e = ctx.summary(q, lambda *a: True, "c02m")
    ctx.inst("manager", "isVariantMultiThreadAccessAllowed")
    rv = e.retvalue()
    if rv is None or not any(x.op in ("isa", "dyn") and "ThreadLocal" in str(x.a[0]) for x in subnodes(rv)) or (rv.op == "un" and rv.a[0] == "!"):
        ctx.viol("manager", "isVariantMultiThreadAccessAllowed", ctx.loc(q), "isVariantMultiThreadAccessAllowed does not tell whether the selection is per thread")
    ctx.need("manager", 6)


def all_conditions(e, rv):
    out = set()
    subnodes(rv, out)
    for ev in e.events:
        for c, _ in ev.g:
            subnodes(c, out)
        for d in ev.d:
            if isinstance(d, Node):
                subnodes(d, out)
            elif isinstance(d, tuple):
                for y in d:
                    if isinstance(y, Node):
                        subnodes(y, out)
    return out


def is_index_of(n, P):
    if n is None:
        return False
    if n.op == "call" and mname(n.a[0]) == "getVariantIndex" and n.a[2] == (P,):
        return True
    if n.op == "call" and mname(n.a[0]) == "at" and n.a[2] == (P,):
        return True
    if n.op == "at" and n.a[1] is P:
        return True
    return n.op == "fld" and n.a[1] == "second" and n.a[0].op == "found" and n.a[0].a[1] is P


def lookup_guard(c, P):
    """A guard that only says that the identifier is (not) registered or is the initial variant's."""
    n = c[0]
    if n.op == "imp":
        return True
    if contains(n, P):
        return True
    return False


def check_delegation(ctx):
    """Every getVariantIndex of an element, network, terminal or extension delegates down to the variant context."""
    p = ctx.p
    for f in sorted(p.funcs):
        if mname(f) != "getVariantIndex" or p.funcs[f]["p"] or not p.funcs[f].get("c"):
            continue
        if p.funcs[f]["c"] in [c for c in p.subclasses(I + "VariantContext")]:
            continue
        e = ctx.summary(f, lambda *a: False, "c02d")
        rv = e.retvalue()
        ctx.inst("delegation", short(f))
        if rv is None or not (rv.op == "call" and mname(rv.a[0]) == "getVariantIndex" and not rv.a[2]):
            ctx.viol("delegation", short(f), ctx.loc(f), "%s does not return the index of the working variant but %s" % (short(f), show(rv) if rv is not None else "nothing"))
