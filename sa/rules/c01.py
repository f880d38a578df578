"""C01: per-variant state follows the variants (clone, recycle, overwrite, remove) for every element and extension."""
from common import *

OPS = ("extendVariantArraySize", "reduceVariantArraySize", "allocateVariantArrayElement", "deleteVariantArrayElement")
# classes that drive the elements' lifecycle rather than take part in it
DRIVERS = {I + "VariantManager", I + "NetworkIndex"}
BYNAME_NOT_INLINED = {"getVariantIndex", "getVariantArraySize"}


def lin(n):
    """Linear normal form {atom: coeff} of an integer expression, or None."""
    if n.op == "int":
        return {None: n.a[0]}
    if n.op == "op" and n.a[0] in ("+", "-"):
        a, b = lin(n.a[1]), lin(n.a[2])
        if a is None or b is None:
            return None
        r = dict(a)
        s = 1 if n.a[0] == "+" else -1
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    return {n: 1}


def is_size_of(n, F):
    return n.op == "call" and mname(n.a[0]) == "size" and n.a[1] is F


def policy(f, rec, obj, depth):
    return mname(f) not in BYNAME_NOT_INLINED


def opname(n):
    return n if n in OPS else None


def params(p, f):
    """(names of) the role parameters of a lifecycle function, by type and position."""
    return [N("param", x["n"] or "arg%d" % i) for i, x in enumerate(p.funcs[f]["p"])]


def variant_fields(ctx):
    """(class, field) -> reason; fields that hold one value per variant."""
    p = ctx.p
    out = {}
    for cid, c in p.classes.items():
        vf = {f["n"]: f["t"] for f in c["fields"] if f["t"].startswith(("std::vector<", "std::deque<"))}
        for f in c["fields"]:
            if f["t"].startswith(I + "VariantArray<"):
                out[(cid, f["n"])] = "variant array"
        if not vf:
            continue
        # indexed by the working variant's index in some function of the class or of a class derived from it
        for sub in [cid]:
            for m in p.classes[sub]["methods"]:
                f = m["f"]
                if f not in p.funcs or mname(f) in OPS:
                    continue
                e = ctx.summary(f, policy, "c01", maxdepth=3)
                nodes = set()
                for ev in e.events:
                    for d in ev.d:
                        if isinstance(d, Node):
                            subnodes(d, nodes)
                rv = e.retvalue()
                if rv is not None:
                    subnodes(rv, nodes)
                for n in nodes:
                    if n.op == "at" and n.a[0].op == "fld" and n.a[0].a[0] is THIS and n.a[0].a[1] in vf:
                        if n.a[1].op == "call" and mname(n.a[1].a[0]) == "getVariantIndex":
                            out[(cid, n.a[0].a[1])] = "indexed by the working variant in " + mname(f)
        # or initialised with one slot per variant by a constructor
        for m in c["methods"]:
            f = m["f"]
            r = p.funcs.get(f)
            if not r or r.get("kind") != "ctor":
                continue
            e = ctx.summary(f, policy, "c01", maxdepth=3)
            for ev in e.events:
                if ev.k == "store" and ev.d[0].op == "fld" and ev.d[0].a[0] is THIS and ev.d[0].a[1] in vf:
                    if ev.d[1].op == "obj" and any(x.op == "call" and mname(x.a[0]) == "getVariantArraySize" for x in subnodes(ev.d[1])):
                        out.setdefault((cid, ev.d[0].a[1]), "sized by the number of variants")
    return out


def owned_type(t):
    for pre in ("std::unique_ptr<", "std::shared_ptr<", "boost::optional<", "std::vector<", "std::list<", "std::map<", "std::unordered_map<", "std::set<"):
        if t.startswith(pre):
            inner = t[len(pre):]
            parts = split_args(inner[:-1] if inner.endswith(">") else inner)
            x = parts[-1] if pre in ("std::map<", "std::unordered_map<") and len(parts) < 3 else parts[1] if pre in ("std::map<", "std::unordered_map<") else parts[0]
            return owned_type(x.strip())
    if t.startswith("std::reference_wrapper<") or t.startswith("stdcxx::Reference") or t.endswith(("&", "*")):
        return None
    return t.replace("const ", "")


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def check(ctx):
    p = ctx.p
    holders = {}
    for cid, c in p.classes.items():
        names = {mname(f) for f in ctx.methods(cid)}
        if any(o in names for o in OPS) and cid not in DRIVERS:
            holders[cid] = c
    vfields = variant_fields(ctx)
    ctx.notes.append("per-variant fields: " + ", ".join(sorted("%s.%s" % (short(c), f) for c, f in vfields)))
    mvo = set()
    for cid in p.classes:
        if any(b in holders for b in p.bases(cid)):
            mvo.add(cid)
    # concrete classes, plus the helper classes that are not polymorphic
    concrete = [c for c in sorted(mvo) if not p.classes[c].get("abstract")]
    done = set()
    for cid in concrete:
        if cid.startswith(I + "VariantArray<"):
            continue
        for op in OPS:
            fs = ctx.method(cid, op)
            fs = [f for f in fs if f in p.funcs]
            if not fs:
                continue
            f = fs[0]
            e = ctx.summary(f, policy, "c01op", dyn=cid)
            for owner, fl in p.all_fields(cid):
                F = N("fld", THIS, fl["n"])
                key = (owner, fl["n"], op)
                inst = "%s.%s/%s" % (short(owner), fl["n"], op)
                if (owner, fl["n"]) in vfields:
                    check_field(ctx, e, f, F, fl, op, inst, owner, cid, done)
                else:
                    t = owned_type(fl["t"])
                    if t and (t in mvo or t in (I + "Extension",)) and not fl["t"].startswith("stdcxx::Reference"):
                        if ctx.method(t, op) or t == I + "Extension":
                            check_forward(ctx, e, f, F, op, inst, cid)
                    elif t and t in p.classes and t not in mvo and t not in DRIVERS and owns_variant_parts(ctx, t, mvo):
                        check_forward(ctx, e, f, F, op, inst, cid, nested=owns_variant_parts(ctx, t, mvo))
            check_args(ctx, e, f, op, cid)
    # a class that has per-variant fields must be reachable by the lifecycle
    for (cid, fn) in vfields:
        if not any(x in mvo for x in [cid]):
            ctx.viol("variant-field-unmanaged", "%s.%s" % (short(cid), fn), p.classes[cid]["file"] + ":%s" % p.classes[cid]["line"],
                     "the field is indexed by the working variant, but its class takes no part in extending, reducing or copying variants")
    check_ctor_sizes(ctx, vfields)
    check_variant_array(ctx)
    check_manager(ctx)
    ctx.need("variant-field/extendVariantArraySize", 55)
    ctx.need("variant-field/allocateVariantArrayElement", 55)
    ctx.need("variant-forward", 40)
    ctx.need("ctor-size", 35)
    ctx.need("variant-manager", 8)


def owns_variant_parts(ctx, t, mvo):
    out = []
    for o, fl in ctx.p.all_fields(t):
        x = owned_type(fl["t"])
        if x and x in mvo and not fl["t"].startswith("stdcxx::Reference"):
            out.append(fl["n"])
    return out


def where(ev):
    return ev.loc()


def check_field(ctx, e, f, F, fl, op, inst, owner, cid, done):
    p = ctx.p
    isarr = fl["t"].startswith(I + "VariantArray<")
    if isarr:
        F = N("fld", F, "m_variants")
        if "m_variants" not in [x["n"] for x in p.classes.get(fl["t"], {"fields": []})["fields"]]:
            ctx.undecided("variant-field/" + op, inst, "variant array layout not recognised")
            return
    P = params(p, f)
    rule = "variant-field/" + op
    ctx.inst(rule, inst)
    loc = ctx.loc(f)
    if op == "extendVariantArraySize":
        grow = [ev for ev in e.events if ev.k == "call" and ev.d[3] is F and ev.d[1] in ("resize", "push_back", "emplace_back", "insert", "assign", "reserve")]
        grow = [ev for ev in grow if ev.d[1] != "reserve"]
        if not grow:
            if passed_out(e, F):
                ctx.undecided(rule, inst, "passed by reference to code that is not analysed")
                return
            ctx.viol(rule, inst, loc, "field %s has one value per variant but is not extended when variants are added to %s" % (fl["n"], short(cid)))
            return
        number = P[-2] if len(P) >= 2 else None
        src = P[-1] if P else None
        for ev in grow:
            if bad_guard(ev, F, P):
                ctx.viol(rule, inst, where(ev), "field %s is extended only under a condition: %s" % (fl["n"], gtext(ev)))
            if ev.d[1] == "resize":
                n = lin(ev.d[4][0])
                ok = False
                if n is not None:
                    sz = [k for k in n if isinstance(k, Node) and (is_size_of(k, F) or (len(P) == 3 and k is P[0]) or sibling_size(k, F))]
                    ok = len(n) == 2 and n.get(number) == 1 and len(sz) == 1 and n[sz[0]] == 1
                    if not ok and all(isinstance(k, Node) and (k.op in ("param",) or sibling_size(k, F) or is_size_of(k, F)) or k is None for k in n):
                        ctx.viol(rule, inst, where(ev), "field %s is resized to %s, not to its size plus the number of new variants" % (fl["n"], show(ev.d[4][0])))
                if len(ev.d[4]) > 1:
                    val(ctx, rule, inst, ev, ev.d[4][1], F, src, fl)
                elif not any(s.k == "store" and s.d[0].op == "at" and s.d[0].a[0] is F and contains(s.d[1], N("at", F, src)) for s in e.events):
                    ctx.viol(rule, inst, where(ev), "new slots of %s are not initialised from the source variant" % fl["n"])
            elif ev.d[1] in ("push_back", "emplace_back"):
                if not ev.loops:
                    ctx.viol(rule, inst, where(ev), "field %s grows by one slot whatever the number of new variants" % fl["n"])
                elif len(ev.d[4]) == 1:
                    val(ctx, rule, inst, ev, ev.d[4][0], F, src, fl)
            elif ev.d[1] == "insert" and len(ev.d[4]) == 3:
                val(ctx, rule, inst, ev, ev.d[4][2], F, src, fl)
    elif op == "reduceVariantArraySize":
        shr = [ev for ev in e.events if ev.k == "call" and ev.d[3] is F and ev.d[1] in ("resize", "pop_back", "erase")]
        if not shr:
            if passed_out(e, F):
                ctx.undecided(rule, inst, "passed by reference to code that is not analysed")
                return
            ctx.viol(rule, inst, loc, "field %s has one value per variant but is not shrunk when variants are removed from %s" % (fl["n"], short(cid)))
            return
        number = P[-1]
        for ev in shr:
            if bad_guard(ev, F, P):
                ctx.viol(rule, inst, where(ev), "field %s is shrunk only under a condition: %s" % (fl["n"], gtext(ev)))
            if ev.d[1] == "resize":
                n = lin(ev.d[4][0])
                if n is not None:
                    sz = [k for k in n if isinstance(k, Node) and (is_size_of(k, F) or sibling_size(k, F))]
                    ok = len(n) == 2 and n.get(number) == -1 and len(sz) == 1 and n[sz[0]] == 1
                    if not ok and all(isinstance(k, Node) and (k.op == "param" or is_size_of(k, F) or sibling_size(k, F)) or k is None for k in n):
                        ctx.viol(rule, inst, where(ev), "field %s is resized to %s, not to its size minus the number of removed variants" % (fl["n"], show(ev.d[4][0])))
            elif ev.d[1] == "pop_back" and not ev.loops:
                ctx.viol(rule, inst, where(ev), "field %s loses one slot whatever the number of removed variants" % fl["n"])
    elif op == "allocateVariantArrayElement":
        idx, src = P[0], P[1]
        sts = [ev for ev in e.events if ev.k == "store" and ev.d[0].op == "at" and ev.d[0].a[0] is F]
        swaps = [ev for ev in e.events if ev.k == "call" and ev.d[3] is not None and ev.d[3].op == "at" and ev.d[3].a[0] is F and ev.d[1] in ("assign", "reset", "swap", "operator=")]
        if not sts and not swaps:
            if passed_out(e, F):
                ctx.undecided(rule, inst, "passed by reference to code that is not analysed")
                return
            ctx.viol(rule, inst, loc, "field %s has one value per variant but is not copied when a variant slot of %s is recycled or overwritten" % (fl["n"], short(cid)))
            return
        for ev in sts:
            i = ev.d[0].a[1]
            if i is not N("elem", idx):
                if i.op in ("param", "int") or i is src:
                    ctx.viol(rule, inst, where(ev), "slot %s of %s is written instead of each recycled slot" % (show(i), fl["n"]))
                    continue
            if bad_guard(ev, F, P, allow_src=(N("elem", idx), src)):
                ctx.viol(rule, inst, where(ev), "field %s is copied only under a condition: %s" % (fl["n"], gtext(ev)))
            val(ctx, rule, inst, ev, ev.d[1], F, src, fl)
    else:
        idx = P[0] if P else None
        for ev in e.events:
            if ev.k == "store" and ev.d[0].op == "at" and ev.d[0].a[0] is F:
                if ev.d[0].a[1] is not idx and idx is not None:
                    ctx.viol(rule, inst, where(ev), "removing a variant writes slot %s of %s, not the removed one" % (show(ev.d[0].a[1]), fl["n"]))
            if ev.k == "call" and ev.d[3] is F and ev.d[1] in ("erase", "resize", "clear", "pop_back"):
                ctx.viol(rule, inst, where(ev), "removing a variant in the middle shifts the slots of %s" % fl["n"])
            if ev.k == "call" and ev.d[3] is not None and ev.d[3].op == "at" and ev.d[3].a[0] is F and idx is not None and ev.d[3].a[1] is not idx and ev.d[1] in ("clear", "reset"):
                ctx.viol(rule, inst, where(ev), "removing a variant clears slot %s of %s, not the removed one" % (show(ev.d[3].a[1]), fl["n"]))


def sibling_size(k, F):
    """size() of another per-variant container of the same object (all have the same length)."""
    return k.op == "call" and mname(k.a[0]) in ("size", "getVariantArraySize")


def val(ctx, rule, inst, ev, v, F, src, fl):
    want = N("at", F, src)
    v = strip_bool(v)
    if v is want:
        return
    if v.op == "call" and v.a[1] is None or v.op in ("call", "new", "obj"):
        # a copy made from the source slot, or produced by a factory given the source slot
        if contains(v, want):
            return
        if v.op == "call" and any(x.op == "lamv" for x in subnodes(v)):
            if any(contains(x, want) for x in subnodes(v)):
                return
        at = [x for x in subnodes(v) if x.op == "at" and x.a[0] is F]
        if at:
            ctx.viol(rule, inst, ev.loc(), "the new value of %s is copied from slot %s, not from the source variant's slot" % (fl["n"], show(at[0].a[1])))
            return
        if v.op == "call":
            ctx.undecided(rule, inst, "value produced by " + show(v)[:80])
            return
    if v.op in ("phi", "lv", "unk", "lamv"):
        if contains(v, want):
            return
        ctx.undecided(rule, inst, "value " + show(v)[:80])
        return
    ctx.viol(rule, inst, ev.loc(), "the new value of %s is %s, not the source variant's value" % (fl["n"], show(v)[:120]))


def gtext(ev):
    return " and ".join(("" if q else "not ") + show(c)[:80] for c, q in ev.g)


def bad_guard(ev, F, P, allow_src=None):
    for c, pol in ev.g:
        if c.op == "imp":
            continue
        if allow_src and c.op == "op" and c.a[0] == "==" and not pol and set(c.a[1:]) == set(allow_src):
            continue
        b = strip_bool(c)
        # presence of an optional part, emptiness of the request, loop bound
        if pol and b.op in ("fld", "call", "elem", "isa", "dyn", "at"):
            if b.op == "call" and mname(b.a[0]) not in PRESENCE and not mname(b.a[0]).startswith("has"):
                return True
            continue
        if c.op == "call" and mname(c.a[0]) == "empty" and not pol:
            continue
        if ev.loops and c.op == "op" and c.a[0] in ("<", "<=", "==") and any(l[1] is c for l in ev.loops):
            continue
        if ev.loops and any(x.op == "lv" for x in subnodes(c)) and any(isinstance(l[1], Node) and (l[1] is c or contains(l[1], c)) for l in ev.loops):
            continue
        if any(x.op in ("unk",) for x in subnodes(c)):
            continue
        return True
    return False


PRESENCE = {"getRatioTapChanger", "getPhaseTapChanger", "get", "is_initialized", "getOptionalRatioTapChanger", "getOptionalPhaseTapChanger"}


def passed_out(e, F):
    return any(ev.k == "call" and F in ev.d[4] for ev in e.events)


def check_forward(ctx, e, f, F, op, inst, cid, nested=None):
    """Every owned part that is itself per-variant must receive the operation."""
    parts = nested or [None]
    for n in parts:
        ins = inst if n is None else inst.replace("/", "." + n + "/")
        ctx.inst("variant-forward", ins)
        hits = []
        for ev in e.events:
            if ev.k in ("call", "enter") and ev.d[1] == op and ev.d[3] is not None and ev.d[3] is not THIS:
                o = ev.d[3]
                if contains(o, F) and (n is None or any(x.op == "fld" and x.a[1] == n for x in subnodes(o)) or (o.op == "call" and n.lower().replace("m_", "") in mname(o.a[0]).lower())):
                    hits.append(ev)
        if not hits:
            if passed_out(e, F):
                ctx.undecided("variant-forward", ins, "passed by reference to code that is not analysed")
                continue
            ctx.viol("variant-forward", ins, ctx.loc(f), "%s does not apply %s to its part %s" % (short(cid), op, F.a[1] + ("." + n if n else "")))
            continue
        for ev in hits:
            bad = forward_guard(ev, F)
            if bad is not None and len(hits) == 1:
                ctx.viol("variant-forward", ins, ev.loc(), "%s is applied to %s only when %s" % (op, F.a[1], bad))


def forward_guard(ev, F):
    for c, pol in ev.g:
        if c.op == "imp":
            continue
        if c.op in ("isa",) and pol:
            continue
        if contains(c, F) and pol:
            continue
        if any(isinstance(l[1], Node) and (l[1] is c or contains(l[1], c)) for l in ev.loops):
            continue
        if c.op == "caught" or any(x.op in ("unk", "lv") for x in subnodes(c)):
            continue
        return ("" if pol else "not ") + show(c)[:100]
    return None


def check_args(ctx, e, f, op, cid):
    """The operation is forwarded with the caller's own arguments, in their roles."""
    p = ctx.p
    P = params(p, f)
    roles = {"extendVariantArraySize": 2, "reduceVariantArraySize": 1, "allocateVariantArrayElement": 2, "deleteVariantArrayElement": 1}[op]
    for ev in e.events:
        if ev.k not in ("call", "enter") or ev.d[1] != op:
            continue
        callee = ev.d[0]
        if callee.startswith(I + "VariantArray<") or I + "VariantArray<" in callee.split("(")[0]:
            continue
        args = list(ev.d[4])
        if op in ("extendVariantArraySize",):
            args = args[-2:]
            want = P[-2:]
        else:
            want = P[:roles]
            args = args[:roles]
        if len(args) != len(want):
            continue
        inst = "%s->%s/%s" % (short(cid), short(callee).rsplit("::", 1)[0], op)
        ctx.inst("variant-args", inst)
        for a, w in zip(args, want):
            if a is not w and a.op in ("param", "int"):
                ctx.viol("variant-args", inst, ev.loc(), "%s is forwarded with %s where the caller's own argument is %s" % (op, show(a), show(w)))


def check_ctor_sizes(ctx, vfields):
    """Elements created while several variants exist get one slot per existing variant."""
    p = ctx.p
    for (cid, fn) in sorted(vfields):
        t = [f["t"] for f in p.classes[cid]["fields"] if f["n"] == fn][0]
        if not t.startswith("std::vector<"):
            continue
        for m in p.classes[cid]["methods"]:
            f = m["f"]
            r = p.funcs.get(f)
            if not r or r.get("kind") != "ctor" or (m.get("p") and len(m["p"]) == 1 and cid in m["p"][0]):
                continue
            e = ctx.summary(f, policy, "c01", maxdepth=3)
            F = N("fld", THIS, fn)
            inst = "%s.%s" % (short(cid), fn)
            sized = []
            for ev in e.events:
                if ev.k == "store" and ev.d[0] is F:
                    sized.append((ev, ev.d[1]))
                elif ev.k == "call" and ev.d[3] is F and ev.d[1] in ("resize", "assign") and ev.d[4]:
                    sized.append((ev, ev.d[4][0]))
                elif ev.k == "call" and ev.d[3] is F and ev.d[1] in ("push_back", "emplace_back"):
                    sized.append((ev, None))
            ctx.inst("ctor-size", inst)
            if not sized:
                if passed_out(e, F):
                    ctx.undecided("ctor-size", inst, "filled by code that is not analysed")
                    continue
                ctx.viol("ctor-size", inst, ctx.loc(f), "constructor leaves %s without a slot per variant" % fn)
                continue
            okk = False
            bad = None
            for ev, v in sized:
                if v is None:
                    okk = okk or bool(ev.loops)
                    continue
                n = v
                if v.op == "obj" and v.a[2]:
                    n = v.a[2][0]
                if any(x.op == "call" and mname(x.a[0]) in ("getVariantArraySize", "size") for x in subnodes(n)):
                    okk = True
                elif n.op == "param":
                    okk = True  # size chosen by the caller
                elif n.op == "int" or v.op == "list":
                    bad = ev
                else:
                    okk = True
            if not okk and bad is not None:
                ctx.viol("ctor-size", inst, bad.loc(), "constructor gives %s a fixed number of slots (%s), not one per existing variant" % (fn, show(sized[0][1])[:60]))


def check_variant_array(ctx):
    """The array of per-variant objects: get() reads the working variant, new and recycled slots come from the factory."""
    p = ctx.p
    for cid in sorted(p.classes):
        if not cid.startswith(I + "VariantArray<"):
            continue
        check_new_array(ctx, cid)
        for f in ctx.methods(cid):
            if mname(f) == "get" and f in p.funcs:
                ctx.inst("variant-array-get", short(f))
                rv = ctx.summary(f, policy, "c01").retvalue()
                ats = [x for x in subnodes(rv) if x.op == "at"] if rv is not None else []
                for x in ats:
                    if not any(y.op == "call" and mname(y.a[0]) == "getVariantIndex" for y in subnodes(x.a[1])):
                        ctx.viol("variant-array-get", short(cid), ctx.loc(f), "reads slot %s, not the working variant's" % show(x.a[1]))


def check_new_array(ctx, cid):
    """A new array gets an object of its own from the factory for each variant there is, not for the working one only."""
    p = ctx.p
    for f in sorted(p.funcs):
        r = p.funcs[f]
        if not f.startswith(cid + "::<ctor>") or not r.get("body"):
            continue
        fac = [x["n"] for x in r["p"] if "function<" in x["t"] or "Factory" in x["t"]]
        if not fac:
            continue
        inst = short(strip_tpl(cid)) + "<" + short(cid.split("<", 1)[1].split(",")[0]) + ">"
        ctx.inst("variant-array-new", inst)
        e = ctx.summary(f, policy, "c01")
        F, P = N("fld", THIS, "m_variants"), N("param", fac[0])
        put = []
        for ev in e.events:
            v = None
            if ev.k == "store" and F in subnodes(ev.d[0]):
                v, at = ev.d[1], ev.d[0].a[1] if ev.d[0].op == "at" else None
            elif ev.k == "call" and ev.d[1] in ("push_back", "emplace_back", "reset") and F in subnodes(ev.d[3]):
                v, at = N("list", tuple(ev.d[4])), None
            if v is not None and P in subnodes(v):
                put.append((ev, at))
        if not put:
            if any(ev.k == "call" and any(isinstance(a, Node) and P in subnodes(a) for a in ev.d[4]) for ev in e.events):
                ctx.undecided("variant-array-new", inst, "the factory is given to code that is not analysed")
            else:
                ctx.viol("variant-array-new", inst, ctx.loc(f), "the constructor never asks the factory for the object of a variant")
            continue
        for ev, at in put:
            if not ev.loops:
                if not any(x.loops for x, _ in put):
                    ctx.viol("variant-array-new", inst, ev.loc(), "the constructor asks the factory for one variant only, not for each variant there is")
            elif at is not None and not any(x.op in ("elem", "lv", "phi", "local", "lp") or x.op == "call" and mname(x.a[0]) in ("operator*",) for x in subnodes(at)):
                ctx.viol("variant-array-new", inst, ev.loc(), "the constructor always fills the same slot (%s)" % show(at)[:60])
            elif any(any(x.op == "call" and mname(x.a[0]) == "getVariantIndex" for x in subnodes(c)) for c, q in ev.g):
                ctx.viol("variant-array-new", inst, ev.loc(), "whether a slot gets an object depends on the working variant")
    ctx.need("variant-array-new", 3)


def check_manager(ctx):
    p = ctx.p
    VM = I + "VariantManager"
    if VM not in p.classes:
        raise AnalysisError("class VariantManager vanished")

    def pol(f, rec, obj, depth):
        return mname(f) not in ("getStatefulObjects", "getAll")
    byid = N("fld", THIS, "m_variantsById")
    for f in ctx.method(VM, "cloneVariant"):
        e = ctx.summary(f, pol, "c01vm")
        ops = [ev for ev in e.events if ev.k == "call" and ev.d[1] in OPS]
        if not ops:
            continue
        if not any("initializer_list" in x["t"] or "vector" in x["t"] or "set" in x["t"] for x in p.funcs[f]["p"]):
            continue
        src = N("param", p.funcs[f]["p"][0]["n"])
        tgt = N("param", p.funcs[f]["p"][1]["n"])
        tid = N("elem", tgt)

        def fail(inst, loc, msg):
            ctx.viol("variant-manager", inst, loc, msg)
        ext = [ev for ev in ops if ev.d[1] == "extendVariantArraySize"]
        alloc = [ev for ev in ops if ev.d[1] == "allocateVariantArrayElement"]
        ctx.inst("variant-manager", "clone: source index")
        for ev in ops:
            s = ev.d[4][-1]
            if ev.d[1] in ("extendVariantArraySize", "allocateVariantArrayElement"):
                if not contains(s, src):
                    fail("clone-source-index", ev.loc(), "the source slot passed to the elements is %s, not the slot of the source variant" % show(s)[:100])
            if not (ev.loops and any(isinstance(l[1], Node) and any(x.op == "call" and mname(x.a[0]) in ("getStatefulObjects", "getAll") for x in subnodes(l[1])) for l in ev.loops)):
                fail("clone-all-objects", ev.loc(), "%s is not applied to every stateful object" % ev.d[1])
        if not ext:
            fail("clone-extend", ctx.loc(f), "no path extends the variant arrays")
        # registration of the new ids
        ins = [ev for ev in e.events if ev.k == "call" and ev.d[3] is byid and ev.d[1] in ("insert", "emplace") and ev.d[4]]
        ins += [ev for ev in e.events if ev.k == "store" and ev.d[0].op == "at" and ev.d[0].a[0] is byid]
        size = N("fld", THIS, "m_variantArraySize")
        unused = N("fld", THIS, "m_unusedIndexes")
        ctx.inst("variant-manager", "clone: registration of new ids", len(ins))
        if len(ins) < 1:
            fail("clone-register", ctx.loc(f), "new variant ids are not registered")
        grown = [ev for ev in e.events if ev.k == "store" and ev.d[0] is size]
        for ev in ins:
            idx = ev.d[1] if ev.k == "store" else (ev.d[4][0].a[1] if ev.d[4][0].op == "pair" else ev.d[4][-1])
            ident = ev.d[0].a[1] if ev.k == "store" else (ev.d[4][0].a[0] if ev.d[4][0].op == "pair" else ev.d[4][0])
            if ident is not tid and ident.op in ("param", "str"):
                fail("clone-register-id", ev.loc(), "a new slot is registered under %s, not under the target id" % show(ident))
            if contains(idx, unused):
                ctx.inst("variant-manager", "clone: recycled slot")
                era = [x for x in e.events if x.k == "call" and x.d[3] is unused and x.d[1] in ("erase", "extract", "clear") and same_region(x, ev)]
                if not era:
                    fail("clone-recycle-erase", ev.loc(), "a recycled slot stays in the set of unused slots: it can be handed out twice")
                rec = [x for x in e.events if x.k == "call" and x.d[1] in ("insert", "emplace") and x.d[3] is not None and x.d[3].op == "local" and x.d[4] and x.d[4][0] is idx and same_region(x, ev)]
                if not rec:
                    fail("clone-recycle-copy", ev.loc(), "a recycled slot is not recorded for being copied from the source")
                else:
                    need_alloc(ctx, alloc, rec[0], "recycled")
            else:
                # extension: the new index is the current size, which then grows by one with the count
                ctx.inst("variant-manager", "clone: new slot")
                if not (idx is size or contains(idx, size) or idx.op == "lv"):
                    fail("clone-new-index", ev.loc(), "a new variant gets slot %s, not the first free slot" % show(idx)[:80])
                if not any(same_region(x, ev) for x in grown):
                    fail("clone-size", ev.loc(), "the number of slots does not grow with a new variant")
                for x in grown:
                    if x.d[1].op == "op" and not (x.d[1].a[0] == "+" and x.d[1].a[2] is N("int", 1)):
                        fail("clone-size", x.loc(), "the number of slots becomes %s for one new variant" % show(x.d[1])[:80])
        ow = [x for x in e.events if x.k == "call" and x.d[1] in ("insert", "emplace") and x.d[3] is not None and x.d[3].op == "local" and x.d[4] and contains(x.d[4][0], byid) and contains(x.d[4][0], tid)]
        ctx.inst("variant-manager", "clone: overwritten slot")
        if not ow:
            fail("clone-overwrite", ctx.loc(f), "an existing target slot is not recorded for being overwritten")
        else:
            need_alloc(ctx, alloc, ow[0], "overwritten")
        for ev in ext:
            ctx.inst("variant-manager", "clone: extension request")
            cnt = ev.d[4][1]
            init = ev.d[4][0]
            if cnt.op == "int" or cnt is size:
                fail("clone-extend-count", ev.loc(), "the arrays are extended by %s" % show(cnt))
            if cnt.op == "phi" and not any(same_step(v) for v in cnt.a[1]):
                fail("clone-extend-count", ev.loc(), "the extension count does not grow by one per new variant")
    for f in ctx.method(VM, "removeVariant"):
        e = ctx.summary(f, pol, "c01vm")
        vid = N("param", p.funcs[f]["p"][0]["n"])

        def fail(inst, loc, msg):
            ctx.viol("variant-manager", inst, loc, msg)
        unused = N("fld", THIS, "m_unusedIndexes")
        size = N("fld", THIS, "m_variantArraySize")
        ctx.inst("variant-manager", "remove: bookkeeping")
        if not any(ev.k == "call" and ev.d[3] is byid and ev.d[1] in ("erase", "extract") for ev in e.events):
            fail("remove-unregister", ctx.loc(f), "the removed id stays registered")
        red = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "reduceVariantArraySize"]
        dele = [ev for ev in e.events if ev.k == "call" and ev.d[1] == "deleteVariantArrayElement"]
        for ev in red:
            ctx.inst("variant-manager", "remove: reduction")
            n = ev.d[4][0]
            sts = [x for x in e.events if x.k == "store" and x.d[0] is size and same_region(x, ev)]
            if not sts:
                fail("remove-size", ev.loc(), "the arrays shrink but the number of slots does not")
            for x in sts:
                if x.d[1].op == "op" and x.d[1].a[0] == "-" and x.d[1].a[2] is not n and n.op != "lv":
                    fail("remove-size", x.loc(), "the arrays shrink by %s, the number of slots by %s" % (show(n)[:60], show(x.d[1].a[2])[:60]))
            gs = [c for c, q in ev.g if q and c.op == "op" and c.a[0] == "==" and contains(c, size)]
            if not gs:
                fail("remove-last-only", ev.loc(), "the arrays shrink although the removed slot may not be the last one")
            if not any(x.k == "call" and x.d[3] is unused and x.d[1] == "erase" and x.seq < ev.seq for x in e.events) and n.op != "int":
                fail("remove-trailing", ev.loc(), "slots dropped with the last one stay in the set of unused slots")
            if n.op == "phi" and not (n.a[0].op == "int" and n.a[0].a[0] == 1):
                fail("remove-count", ev.loc(), "the reduction count starts at %s" % show(n.a[0]))
        for ev in dele:
            ctx.inst("variant-manager", "remove: deletion")
            if not contains(ev.d[4][0], vid):
                fail("remove-index", ev.loc(), "the deleted slot %s is not the removed variant's" % show(ev.d[4][0])[:60])
            if not any(x.k == "call" and x.d[3] is unused and x.d[1] in ("insert", "emplace") and x.d[4][0] is ev.d[4][0] and same_region(x, ev) for x in e.events):
                fail("remove-unused", ev.loc(), "the freed slot is not recorded as unused: its index can never be recycled, or the array can later be cut short")
        if not red or not dele:
            fail("remove-paths", ctx.loc(f), "one of the two ways of freeing a slot is missing")
        rs = [ev for ev in e.events if ev.k in ("call", "enter") and ev.d[1] == "resetIfVariantIndexIs"]
        ctx.inst("variant-manager", "remove: working variant reset")
        if not rs:
            fail("remove-reset", ctx.loc(f), "a working variant that is removed is not reset: later reads use a slot that no longer exists")
        for ev in rs:
            if not contains(ev.d[4][0], vid):
                fail("remove-reset", ev.loc(), "the working variant is reset for slot %s" % show(ev.d[4][0])[:60])
            extra = [(c, q) for c, q in ev.g if c.op != "imp" and not (dele and red and (c, q) in dele[0].g and (c, q) in red[0].g)]
            if extra:
                fail("remove-reset", ev.loc(), "the working variant is reset only when %s" % show(extra[0][0])[:80])


def same_step(v):
    return v.op == "op" and v.a[0] == "+" and v.a[2] is N("int", 1) or v.op == "ite" and (same_step(v.a[1]) or same_step(v.a[2]))


def same_region(a, b):
    """Both events are reached under the same conditions (one's guards include the other's)."""
    ga = set(x for x in a.g if x[0].op != "imp")
    gb = set(x for x in b.g if x[0].op != "imp")
    return ga <= gb or gb <= ga


def need_alloc(ctx, alloc, rec, what):
    S = rec.d[3]
    hit = [ev for ev in alloc if ev.d[4][0] is S]
    if not hit:
        ctx.viol("variant-manager", "clone-%s-copied" % what, rec.loc(), "%s slots are never copied from the source variant" % what)
        return
    for ev in hit:
        for c, q in ev.g:
            if c.op == "imp" or (c, q) in rec.g:
                continue
            if c.op == "call" and mname(c.a[0]) in ("empty", "size") and c.a[1] is S:
                continue
            if any(x is S for x in subnodes(c)):
                continue
            if c.op == "call" and mname(c.a[0]) in ("empty",) and c.a[1] is not S:
                ctx.viol("variant-manager", "clone-%s-copied" % what, ev.loc(), "%s slots are copied only when %s" % (what, ("" if q else "not ") + show(c)[:80]))
